From dcd574531009cfa26a60ca79387c9bb12b77bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 01/60] fix: MemoryLayout::validate() reads past the end of
 truncated programs and accepts malformed init programs

---
 typelib/memory_layout.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..2cb04a7 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -374,17 +374,21 @@ void MemoryLayout::validate() const
         switch(*it)
         {
             case FLAG_MEMCPY:
-                ++it;
+                if (++it == ops.end())
+                    throw InvalidMemoryLayout("found an operation without its operand");
                 break;
             case FLAG_SKIP:
-                ++it;
+                if (++it == ops.end())
+                    throw InvalidMemoryLayout("found an operation without its operand");
                 break;
             case FLAG_ARRAY:
-                ++it;
+                if (++it == ops.end())
+                    throw InvalidMemoryLayout("found an operation without its operand");
                 ++indent;
                 break;
             case FLAG_CONTAINER:
-                ++it;
+                if (++it == ops.end())
+                    throw InvalidMemoryLayout("found an operation without its operand");
                 ++indent;
                 break;
             case FLAG_END:
@@ -406,12 +410,15 @@ void MemoryLayout::validate() const
         switch(*it)
         {
             case FLAG_INIT_SKIP:
-                ++it;
+                if (++it == init_ops.end())
+                    throw InvalidMemoryLayout("found an init operation without its operand");
                 break;
             case FLAG_INIT:
             {
-                size_t size = *(++it);
-                if ((init_ops.end() - it) < static_cast<int>(size))
+                if (++it == init_ops.end())
+                    throw InvalidMemoryLayout("found an init operation without its operand");
+                size_t size = *it;
+                if (static_cast<size_t>(init_ops.end() - it) <= size)
                 {
                     throw InvalidMemoryLayout("found a FLAG_INIT block of size " +
                             lexical_cast<string>(size) + ", but there is only " +
@@ -421,18 +428,21 @@ void MemoryLayout::validate() const
                 break;
             }
             case FLAG_INIT_REPEAT:
-                ++it;
+                if (++it == init_ops.end())
+                    throw InvalidMemoryLayout("found an init operation without its operand");
                 ++indent;
                 break;
             case FLAG_INIT_CONTAINER:
-                ++it;
+                if (++it == init_ops.end())
+                    throw InvalidMemoryLayout("found an init operation without its operand");
                 break;
             case FLAG_INIT_END:
                 if (indent == 0)
                     throw InvalidMemoryLayout("found FLAG_INIT_END without a corresponding FLAG_INIT_REPEAT");
                 --indent;
                 break;
-
+            default:
+                throw InvalidMemoryLayout("found invalid init bytecode");
         }
     }
 
-- 
2.43.0


From fb0d0b17ad7699fc9d72499d9fddb0d115e03d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 02/60] fix: MemoryLayout::skipBlock() steps past the end when
 the last operation lacks its operand

---
 typelib/memory_layout.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 2cb04a7..f794894 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -533,7 +533,8 @@ MemoryLayout::Ops::const_iterator MemoryLayout::skipBlock(
         {
             case FLAG_ARRAY:
             case FLAG_CONTAINER:
-                ++it;
+                if (++it == end)
+                    return end;
                 ++nesting;
                 break;
 
@@ -545,7 +546,8 @@ MemoryLayout::Ops::const_iterator MemoryLayout::skipBlock(
 
             case FLAG_SKIP:
             case FLAG_MEMCPY:
-                ++it;
+                if (++it == end)
+                    return end;
             default:
                 break;
         }
-- 
2.43.0


From 653e623ec76e60483ddd59e70c2ad0e3018c179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 03/60] fix: ValueOps::load() reads past the end of a program
 whose last array is not closed

---
 typelib/value_ops.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..3a52d5d 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -152,7 +152,7 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                             load(data, out_offset, stream, element_it, end);
                 }
 
-                if (*it != MemLayout::FLAG_END)
+                if (it == end || *it != MemLayout::FLAG_END)
                     throw std::runtime_error("bytecode error in load(): array does not end with FLAG_END");
 
                 break;
-- 
2.43.0


From 21826febc664be5185cee6a853ffc47af922716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 04/60] fix: loading an empty container leaves the previous
 elements of the destination in place

---
 typelib/value_ops.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 3a52d5d..ae5d92c 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,10 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From 4c98b302dc2a21f278793f3ab4d1aa168ac1b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 05/60] fix: zero, destroy, copy and compare reject values that
 contain an array of zero elements

---
 typelib/value_ops.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index ae5d92c..b7943d0 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -315,6 +315,8 @@ boost::tuple< boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(buffer, it) = zero(buffer, element_it, end);
 
@@ -420,6 +422,8 @@ boost::tuple< boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(buffer, it) = destroy(buffer, element_it, end);
 
@@ -477,6 +481,8 @@ boost::tuple< boost::uint8_t*, boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(out_buffer, in_buffer, it) =
                         copy(out_buffer, in_buffer, element_it, end);
@@ -537,6 +543,8 @@ boost::tuple<bool, boost::uint8_t*, boost::uint8_t*, MemoryLayout::const_iterato
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                 {
                     bool is_equal;
-- 
2.43.0


From 3fd527cb92a9e3fba4add17236f17e9304913a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 06/60] fix: init rejects values that contain an array of zero
 elements

---
 typelib/memory_layout.cc | 31 +++++++++++++++++++++++++++++++
 typelib/memory_layout.hh |  8 ++++++++
 typelib/value_ops.cc     |  2 ++
 3 files changed, 41 insertions(+)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index f794894..650048a 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -555,6 +555,37 @@ MemoryLayout::Ops::const_iterator MemoryLayout::skipBlock(
     return end;
 }
 
+MemoryLayout::Ops::const_iterator MemoryLayout::skipInitBlock(
+        MemoryLayout::Ops::const_iterator begin,
+        MemoryLayout::Ops::const_iterator end)
+{
+    size_t nesting = 0;
+    for (MemoryLayout::const_iterator it = begin; it != end; ++it)
+    {
+        size_t op = *it;
+        if (op == FLAG_INIT_END)
+        {
+            if (nesting == 0)
+                return it;
+            --nesting;
+            continue;
+        }
+
+        if (++it == end)
+            return end;
+        if (op == FLAG_INIT_REPEAT)
+            ++nesting;
+        else if (op == FLAG_INIT)
+        {
+            size_t size = *it;
+            if (static_cast<size_t>(end - it) <= size)
+                return end;
+            it += size;
+        }
+    }
+    return end;
+}
+
 bool MemLayout::Visitor::visit_ (Numeric const& type)
 {
     ops.pushMemcpy(type.getSize());
diff --git a/typelib/memory_layout.hh b/typelib/memory_layout.hh
index e5f733f..f555c7e 100644
--- a/typelib/memory_layout.hh
+++ b/typelib/memory_layout.hh
@@ -83,6 +83,14 @@ namespace Typelib
                 const_iterator begin,
                 const_iterator end);
 
+        /** Like skipBlock, for a block of initialization operations
+         *
+         * It returns the position of the block's FLAG_INIT_END
+         */
+        static const_iterator skipInitBlock(
+                const_iterator begin,
+                const_iterator end);
+
     private:
         const_iterator simplify(bool merge_skip_copy, bool remove_trailing_skips, const_iterator it, const_iterator end, unsigned int depth, MemoryLayout& simplified) const;
         const_iterator simplifyBlock(bool merge_skip_copy, bool remove_trailing_skips, const_iterator it, const_iterator end, unsigned int depth, MemoryLayout& simplified) const;
diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index b7943d0..e3cb7fc 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -375,6 +375,8 @@ boost::tuple< boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipInitBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(buffer, it) = init(buffer, element_it, end);
 
-- 
2.43.0


From 2033a8fbf7dea99e2bd4d7ff794a143fe4728ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 07/60] fix: MemoryLayout::simplify() removes unrelated
 operations in front of an array of empty elements

---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 650048a..54fbf08 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -194,7 +194,7 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
+                simplified.init_ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
@@ -312,7 +312,7 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
+                simplified.ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
-- 
2.43.0


From b731aabb2fb8dd57121ae972caaac72c870f0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 08/60] fix: MemoryLayout::simplify() drops trailing skips when
 asked to keep them

---
 typelib/memory_layout.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 54fbf08..4d87686 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -359,7 +359,9 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
 
     if (current_op_count)
     {
-        if (!remove_trailing_skips || current_op != FLAG_SKIP || depth > 0)
+        if (!remove_trailing_skips)
+            simplified.pushGenericOp(current_op, current_op_count);
+        else if (current_op != FLAG_SKIP || depth > 0)
             simplified.pushGenericOp(current_op, current_op_count - current_skip_count);
     }
 
-- 
2.43.0


From 852411f0adc1c8689d0b25a79bee8a931cc3f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 09/60] fix: layouts refuse accepted pointers and opaques
 inside arrays and containers

---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 4d87686..afe7ca3 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -616,7 +616,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -624,7 +624,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops);
+    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
-- 
2.43.0


From 900307f5768ad959b3453671fe647b0fdc942965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 10/60] fix: loading a vector whose announced byte size
 overflows writes out of bounds

---
 lang/csupport/containers.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..f861a36 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -4,8 +4,10 @@
 #include <typelib/value_ops.hh>
 #include <typelib/value_ops_details.hh>
 #include <boost/tuple/tuple.hpp>
+#include <boost/lexical_cast.hpp>
 #include <string.h>
 #include <limits>
+#include <stdexcept>
 
 #include <iostream>
 
@@ -102,6 +104,11 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     if (!hasElementLayout())
         throw std::runtime_error("could not compute layout for element type " + element_t.getName() + ", cannot copy");
 
+    // new_raw_size must not have wrapped: callers rely on having enough space
+    // for new_size elements afterwards
+    if (new_size > ptr->max_size() / element_size)
+        throw std::length_error("cannot resize a " + getName() + " to " + boost::lexical_cast<std::string>(new_size) + " elements");
+
     if (isElementMemcpy())
     {
         ptr->resize(new_raw_size);
-- 
2.43.0


From 114fe8a01dabf3de3207c455b53b0930f373007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 11/60] fix: vectors of plain elements can only be marshalled
 with fully merged layouts

---
 lang/csupport/containers.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index f861a36..7ae4e41 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -304,6 +304,19 @@ void Vector::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
     }
 }
 
+/** Tests if the operations of one container element are a single copy of the
+ * whole element, in which case all the elements can be processed at once
+ */
+static bool isWholeElementMemcpy(
+        Container::MarshalOps::const_iterator begin,
+        Container::MarshalOps::const_iterator end, size_t element_size)
+{
+    return end - begin > 2
+        && begin[0] == MemLayout::FLAG_MEMCPY
+        && begin[1] == element_size
+        && begin[2] == MemLayout::FLAG_END;
+}
+
 Container::MarshalOps::const_iterator Vector::dump(
         void const* container_ptr, size_t element_count, OutputStream& stream,
         MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const
@@ -311,11 +324,10 @@ Container::MarshalOps::const_iterator Vector::dump(
     std::vector<uint8_t> const* vector_ptr =
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
-    MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isWholeElementMemcpy(begin, end, getIndirection().getSize()))
     {
         // optimize a bit: do a huge memcpy if possible
-        size_t size       = *(++it) * element_count;
+        size_t size       = getIndirection().getSize() * element_count;
         stream.write(&(*vector_ptr)[0], size);
         return begin + 2;
     }
@@ -345,10 +357,9 @@ Container::MarshalOps::const_iterator Vector::load(
     size_t      element_size = element_t.getSize();
     resize(vector_ptr, element_count);
 
-    MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isWholeElementMemcpy(begin, end, element_size))
     {
-        size_t size       = *(++it) * element_count;
+        size_t size       = element_size * element_count;
         stream.read(&(*vector_ptr)[0], size);
         return begin + 2;
     }
-- 
2.43.0


From 975bd98c7f941b0cd2e2e79204514c79e4f19292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 12/60] fix: getRelativeName() reads before the string when
 given an empty namespace

---
 typelib/typename.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index b4a8bc6..3c7335a 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -226,10 +226,7 @@ namespace Typelib
 
     std::string getRelativeName(std::string const& name, std::string const& ns)
     {
-        size_t size = ns.length();
-        if (*ns.rbegin() != '/')
-            size += 1;
-        return std::string(name, size, string::npos);
+        return std::string(name, getNormalizedNamespace(ns).length(), string::npos);
     }
 
     std::string getMinimalPathTo(std::string const& full_name, std::string const& ns)
-- 
2.43.0


From e5aba9217f0e56c866a13bc575cc2a5eb6ee585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 13/60] fix: type name validation accepts malformed names and
 refuses pointers to arrays and templates

---
 typelib/typename.cc | 79 ++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 33 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 3c7335a..51a912b 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -45,11 +45,8 @@ namespace Typelib
         return identifier[0] == NamespaceMark;
     }
 
-    static bool isValidTypeBasename(std::string s, bool absolute, bool accept_integers)
+    static bool isValidTypeBasename(std::string s, bool absolute)
     {
-        if (accept_integers && s.find_first_not_of("-0123456789") == string::npos)
-            return true;
-
         int pos = 0;
         if (absolute && s[0] != '/')
             return false;
@@ -59,12 +56,28 @@ namespace Typelib
 
         size_t modifiers = s.find_first_of("*[");
         if (modifiers != string::npos)
+        {
+            if (s.find_first_not_of("* ", modifiers) != string::npos)
+                return false;
             return isValidIdentifier(string(s, pos, modifiers - pos));
+        }
         else
             return isValidIdentifier(string(s, pos));
 
     }
 
+    // Called with the position of a closing bracket. Moves it to the last of the
+    // pointer marks that follow and returns true if what comes next can follow
+    // a complete type name
+    static bool skipPointerMarks(std::string const& s, unsigned int& i)
+    {
+        while (i + 1 < s.length() && s[i + 1] == '*')
+            ++i;
+        if (i + 1 >= s.length())
+            return true;
+        return s[i + 1] == '/' || s[i + 1] == '>' || s[i + 1] == '[' || s[i + 1] == ',';
+    }
+
     std::list<std::string> splitTypename(std::string const& name)
     {
         unsigned int start_pos = 0;
@@ -97,20 +110,29 @@ namespace Typelib
     static pair<bool, int> isValidTypename(std::string const& s, int pos, bool absolute, bool accept_integers)
     {
         unsigned int start_pos = pos;
+        unsigned int first_pos = pos;
         if (s[pos] == '/')
             pos++;
+        else if (accept_integers)
+        {
+            // Template arguments that are not types are numbers
+            size_t end = s.find_first_not_of("-0123456789", pos);
+            if (end == string::npos)
+                end = s.length();
+            return make_pair(true, end);
+        }
 
         for (unsigned int i = pos; i < s.length(); ++i)
         {
             if (s[i] == '/')
             {
-                if (!isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
+                if (!isValidTypeBasename(string(s, start_pos, i - start_pos), absolute))
                     return make_pair(false, i);
                 start_pos = i;
             }
             else if (s[i] == '<')
             {
-                if (!isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
+                if (!isValidTypeBasename(string(s, start_pos, i - start_pos), absolute))
                     return make_pair(false, i);
 
                 while (s[i] != '>')
@@ -124,52 +146,42 @@ namespace Typelib
                         return make_pair(false, i);
                 }
 
+                if (!skipPointerMarks(s, i))
+                    return make_pair(false, i + 1);
                 start_pos = i + 1;
-                if (i + 1 < s.length())
-                {
-                    if (s[i + 1] == '/')
-                        i++;
-                    else if (s[i + 1] != '>' && s[i + 1] != '[' && s[i + 1] != ',')
-                        return make_pair(false, i + 1);
-                }
+                if (i + 1 < s.length() && s[i + 1] == '/')
+                    i++;
             }
             else if (s[i] == '[')
             {
                 // start_pos == i if we are parsing an array of templates
-                if (start_pos != i && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
+                if ((start_pos != i || i == first_pos) && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute))
                     return make_pair(false, i);
 
-                if (i + 1 == s.length())
+                size_t end = s.find_first_not_of("0123456789", i + 1);
+                if (end == string::npos || end == i + 1 || s[end] != ']')
                     return make_pair(false, i);
+                i = end;
 
+                if (!skipPointerMarks(s, i))
+                    return make_pair(false, i + 1);
                 start_pos = i + 1;
+                if (i + 1 < s.length() && s[i + 1] == '/')
+                    i++;
             }
             else if (s[i] == ']')
-            {
-                if (start_pos == i)
-                    return make_pair(false, start_pos);
-                if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
-                    return make_pair(false, start_pos);
-
-                start_pos = i + 1;
-                if (i + 1 < s.length())
-                {
-                    if (s[i + 1] == '/')
-                        i++;
-                    else if (s[i + 1] != '>' && s[i + 1] != '[')
-                        return make_pair(false, i + 1);
-                }
-            }
+                return make_pair(false, i);
             else if (s[i] == '>' || s[i] == ',')
             {
-                if (!isValidTypeBasename(string(s, start_pos, i - start_pos), true, true))
+                // start_pos == i if we have just parsed a modifier
+                if ((start_pos != i || i == first_pos) && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute))
                     return make_pair(false, i);
                 return make_pair(true, i);
             }
         }
 
         if (start_pos != s.length())
-            return make_pair(isValidTypeBasename(string(s, start_pos, s.length() - start_pos), absolute, accept_integers), s.length());
+            return make_pair(isValidTypeBasename(string(s, start_pos, s.length() - start_pos), absolute), s.length());
         else return make_pair(true, s.length());
     }
 
@@ -177,7 +189,8 @@ namespace Typelib
     {
         if (name.empty())
             return false;
-        return isValidTypename(name, 0, absolute, false).first;
+        pair<bool, int> result = isValidTypename(name, 0, absolute, false);
+        return result.first && result.second == static_cast<int>(name.length());
     }
 
     bool isValidNamespace(const string& name, bool absolute)
-- 
2.43.0


From 2e7bb55c2bf2ab456c0cda2675be57b0c08e460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 14/60] fix: array modifiers that are not numbers are parsed as
 dimension 0

---
 typelib/typebuilder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index bcec4a1..53665af 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -129,8 +129,11 @@ namespace Typelib
                 size_t start = full_name.find_last_of('[', end);
                 if (start == string::npos)
                     throw InvalidIndirectName(full_name + " is not a valid type name: array definition missing opening bracket at character " + boost::lexical_cast<std::string>(end));
+                string dimension(full_name, start + 1, end - start - 1);
+                if (dimension.empty() || dimension.find_first_not_of("0123456789") != string::npos)
+                    throw InvalidIndirectName(full_name + " is not a valid type name: '" + dimension + "' is not an array dimension");
                 new_mod.category = Type::Array;
-                new_mod.size = atoi(&full_name[start] + 1);
+                new_mod.size = boost::lexical_cast<int>(dimension);
                 end = start - 1;
                 modlist.push_front(new_mod);
             }
-- 
2.43.0


From e1a09f616b68c4c4c01918a4e7109e6d5e6d5fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 15/60] fix: compute the end of compound fields as size_t in
 getTrailingPadding

---
 typelib/typemodel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..f7f7a5c 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -326,10 +326,10 @@ namespace Typelib
         FieldList::const_iterator it = m_fields.begin();
         FieldList::const_iterator const end = m_fields.end();
 
-        int max_offset = 0;
+        size_t max_offset = 0;
         for (; it != end; ++it)
         {
-            int offset = it->getOffset() + it->getType().getSize();
+            size_t offset = it->getOffset() + it->getType().getSize();
             if (offset > max_offset)
                 max_offset = offset;
         }
-- 
2.43.0


From 733059e8b555b8b1687ae47a9a41ad533f6234db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 16/60] fix: compiled byte swapping drops the trailing padding
 of compounds

---
 typelib/endianness.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..81722ab 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -114,6 +114,14 @@ namespace Typelib {
             dispatch(it->getType());
             m_output_index = new_index + it->getType().getSize();
         }
+
+        // Keep what follows the last field, the output would be shifted otherwise
+        size_t end_index = base_index + type.getSize();
+        if (m_output_index < end_index)
+        {
+            skip(end_index - m_output_index);
+            m_output_index = end_index;
+        }
         return true;
     }
 
-- 
2.43.0


From dc5054115ad875a8461712a15c815bca7e0edf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 17/60] fix: compiled byte swapping of empty arrays uses an
 uninitialized iterator

---
 typelib/endianness.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 81722ab..89159e8 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -62,6 +62,14 @@ namespace Typelib {
     { throw UnsupportedEndianSwap("pointers"); }
     bool CompileEndianSwapVisitor::visit_ (Array const& type)
     {
+        if (type.getSize() == 0)
+        {
+            // Nothing to swap, but the elements have to be supported
+            CompileEndianSwapVisitor elements;
+            elements.apply(type.getIndirection());
+            return true;
+        }
+
         if (type.getIndirection().getCategory() == Type::Array)
         {
             size_t current_size = m_compiled.size();
-- 
2.43.0


From dfef22948779588ff6106c890ed4df26cab1bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 18/60] fix: Endian::from_network() cannot be instantiated

---
 typelib/endian_swap.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/endian_swap.hh b/typelib/endian_swap.hh
index 8a9f5ce..c3c2cc0 100644
--- a/typelib/endian_swap.hh
+++ b/typelib/endian_swap.hh
@@ -90,11 +90,11 @@ namespace Typelib
         /** Converts \c source, which is in network byte order, into native byte order and
          * saves the result into \c dest */
         template<typename S>
-        inline void from_network(const S source, S& dest) { to_network(source, dest); }
+        inline void from_network(const S source, S& dest) { to_big(source, dest); }
         /** Converts \c source, which is in network byte order, into native byte order and
          * returns the result */
         template<typename S>
-        inline S from_network(const S source) { return to_network(source); }
+        inline S from_network(const S source) { return to_big(source); }
         /** Converts \c source, which is in little endian, into native byte order and
          * saves the result into \c dest */
         template<typename S>
-- 
2.43.0


From fb28b5bfb1b002a3703c6e42a061ad23bdb50006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 19/60] fix: comparing types fails when one type corresponds to
 several equal ones

A type could only be mapped to one other type during a comparison, so
isSame() answered false for structurally identical types (and was
asymmetric). Remember the pairs (and the equality flag) that have already
been started instead. Null types are only equal to null types.
---
 typelib/typemodel.cc | 56 +++++++++++++++++---------------------------
 typelib/typemodel.hh | 29 +++++++++++++----------
 2 files changed, 39 insertions(+), 46 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index f7f7a5c..a2d7f1c 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -56,49 +56,37 @@ namespace Typelib
         if (this == &with)
             return true;
 
-        RecursionStack stack;
-        stack.insert(make_pair(this, &with));
-        return do_compare(with, true, stack);
+        ComparisonStack stack;
+        return rec_compare(*this, with, true, stack);
     }
     bool   Type::canCastTo(Type const& with) const
     {
         if (this == &with)
             return true;
 
-        RecursionStack stack;
-        stack.insert(make_pair(this, &with));
-        return do_compare(with, false, stack);
+        ComparisonStack stack;
+        return rec_compare(*this, with, false, stack);
     }
 
     unsigned int Type::getTrailingPadding() const
     { return 0; }
 
-    bool Type::rec_compare(Type const& left, Type const& right, bool equality, RecursionStack& stack) const
+    bool Type::rec_compare(Type const& left, Type const& right, bool equality, ComparisonStack& stack) const
     {
         if (&left == &right)
             return true;
 
-        RecursionStack::const_iterator it = stack.find(&left);
-        if (it != stack.end())
-        {
-            /** One type cannot be equal to two different types. So either we
-             * are already comparing left and right and it is fine (return
-             * true). Or we are comparing it with a different type and that
-             * means the two types are different (return false)
-             */
-            return (&right == it->second);
-        }
+        /** If we are already comparing left and right, or have done so
+         * already, there is nothing to add: a mismatch makes the whole
+         * comparison fail. Note that the same type might have to be compared
+         * with different types, which can have the same definition.
+         */
+        if (!stack.insert( make_pair(make_pair(&left, &right), equality) ).second)
+            return true;
 
-        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) ).first;
-        try {
-            return left.do_compare(right, equality, stack);
-        }
-        catch(...) {
-            stack.erase(new_it);
-            throw;
-        }
+        return left.do_compare(right, equality, stack);
     }
-    bool Type::do_compare(Type const& other, bool equality, RecursionStack& stack) const
+    bool Type::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     { return (getSize() == other.getSize() && getCategory() == other.getCategory()); }
 
     Type const& Type::merge(Registry& registry) const
@@ -115,7 +103,7 @@ namespace Typelib
         Type const* old_type = registry.get(getName());
         if (old_type)
         {
-            if (old_type->do_compare(*this, true, stack))
+            if (old_type->isSame(*this))
             {
                 stack.insert(make_pair(this, old_type));
                 return old_type;
@@ -237,13 +225,13 @@ namespace Typelib
             m_values[it->first].insert(it->second.begin(), it->second.end());
     }
 
-    bool OpaqueType::do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+    bool OpaqueType::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     { return Type::do_compare(other, equality, stack) && getName() == other.getName(); }
 
     Numeric::Numeric(std::string const& name, size_t size, NumericCategory category)
         : Type(name, size, Type::Numeric), m_category(category) {}
     Numeric::NumericCategory Numeric::getNumericCategory() const { return m_category; }
-    bool Numeric::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Numeric::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     { return getSize() == type.getSize() && getCategory() == type.getCategory() &&
         m_category == static_cast<Numeric const&>(type).m_category; }
     Type* Numeric::do_merge(Registry& registry, RecursionStack& stack) const
@@ -253,7 +241,7 @@ namespace Typelib
         : Type(name, size, category)
         , m_indirection(on) {}
     Type const& Indirect::getIndirection() const { return m_indirection; }
-    bool Indirect::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Indirect::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     { return Type::do_compare(type, equality, stack) &&
         rec_compare(m_indirection, static_cast<Indirect const&>(type).m_indirection, equality, stack); }
     std::set<Type const*> Indirect::dependsOn() const
@@ -335,7 +323,7 @@ namespace Typelib
         }
         return getSize() - max_offset;
     }
-    bool Compound::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Compound::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         if (type.getCategory() != Type::Compound)
             return false;
@@ -454,7 +442,7 @@ namespace Typelib
         : Type (name, sizeof(FindSizeOfEnum), Type::Enum)
         , m_last_value(initial_value - 1) { }
     Enum::ValueMap const& Enum::values() const { return m_values; }
-    bool Enum::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Enum::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         Enum const& other_type = static_cast<Enum const&>(type);
         if (!Type::do_compare(type, equality, stack))
@@ -533,7 +521,7 @@ namespace Typelib
         return stream.str();
     }
     size_t  Array::getDimension() const { return m_dimension; }
-    bool Array::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Array::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         if (!Type::do_compare(type, equality, stack))
             return false;
@@ -604,7 +592,7 @@ namespace Typelib
         return (*it->second)(r, on);
     }
 
-    bool Container::do_compare(Type const& other, bool equality, RecursionStack& stack) const
+    bool Container::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     {
         if (!Type::do_compare(other, true, stack))
             return false;
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..5dae933 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -164,9 +164,14 @@ namespace Typelib
          */
         Type const& merge(Registry& registry) const;
 
-        /** Foreign => local mapping for merge() and isSame() */
+        /** Foreign => local mapping for merge() */
         typedef std::map<Type const*, Type const*> RecursionStack;
 
+        /** The comparisons that isSame() and canCastTo() have already started:
+         * pairs of types, with the equality flag (see do_compare)
+         */
+        typedef std::set< std::pair< std::pair<Type const*, Type const*>, bool > > ComparisonStack;
+
         /** Base merge method. The default implementation should be fine for
          * most types.
          *
@@ -220,14 +225,14 @@ namespace Typelib
          * The base definition compares the name, size and category of the
          * types.
          */
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
 
         /** Called by do_compare to compare +left+ to +right+. This method takes
          * into account potential loops in the recursion
          *
          * See do_compare for a description of the equality flag.
          */
-        bool rec_compare(Type const& left, Type const& right, bool equality, RecursionStack& stack) const;
+        bool rec_compare(Type const& left, Type const& right, bool equality, ComparisonStack& stack) const;
 
         /** Checks if there is already a type with the same name and definition
          * than *this in \c registry. If that is the case, returns it, otherwise
@@ -256,8 +261,8 @@ namespace Typelib
     public:
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
-        { return other.getName() == getName(); }
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const
+        { return Type::do_compare(other, equality, stack) && other.getName() == getName(); }
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new NullType(*this); }
@@ -272,7 +277,7 @@ namespace Typelib
     public:
         OpaqueType(std::string const& name, size_t size) : Type(name, size, Type::Opaque) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new OpaqueType(*this); }
     };
 
@@ -299,7 +304,7 @@ namespace Typelib
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         NumericCategory m_category;
     };
@@ -349,7 +354,7 @@ namespace Typelib
         Enum::integral_type getNextValue() const;
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         integral_type m_last_value;
         ValueMap m_values;
@@ -427,7 +432,7 @@ namespace Typelib
         void normalizeFieldOrder();
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
         FieldList m_fields;
@@ -451,7 +456,7 @@ namespace Typelib
         virtual Type const& merge(Registry& registry, RecursionStack& stack) const;
 
     protected:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
         /** Overloaded in subclasses to return the name of this type based on
@@ -481,7 +486,7 @@ namespace Typelib
         virtual std::string getIndirectTypeName(std::string const& inside_name) const;
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         virtual bool do_resize(Registry& into, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
         size_t m_dimension;
@@ -671,7 +676,7 @@ namespace Typelib
         static Container const& createContainer(Registry& r, std::string const& name, std::list<Type const*> const& on);
 
     protected:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual ContainerFactory getFactory() const = 0;
         Type* do_merge(Registry& registry, RecursionStack& stack) const;
 
-- 
2.43.0


From ab366da8ac6f2e31e82025e47e873d3ba774c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 20/60] fix: Registry::isSame() compares each type with the
 first one of the other registry

---
 typelib/registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..55f2e6f 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -562,9 +562,11 @@ namespace Typelib
 
         while (left_it != left_end)
         {
+            if (left_it->first != right_it->first)
+                return false;
             if (!left_it->second.type->isSame(*right_it->second.type))
                 return false;
-            left_it++; left_end++;
+            ++left_it; ++right_it;
         }
         return true;
     }
-- 
2.43.0


From 29f5f82ccaef5c504a1fa6f63b334a170cdef27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 21/60] fix: Registry::add() lets types of outer namespaces
 hide the ones of the current namespace

---
 typelib/registry.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 55f2e6f..aa4b1b0 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -352,9 +352,16 @@ namespace Typelib
 
             string cur_name  = getRelativeName(name, cur_space);
 
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
+            // Check if there is already a type with the same relative name in
+            // a deeper part of the current namespace
+            bool hidden = false;
+            std::string deeper_space = cur_space;
+            for (NameTokenizer::const_iterator it = ns_it; !hidden && it != tokens.end(); ++it)
+            {
+                deeper_space += *it + NamespaceMarkString;
+                hidden = (m_global.count(deeper_space + cur_name) != 0);
+            }
+            if (!hidden)
             {
                 m_current.erase(cur_name);
                 m_current.insert(make_pair(cur_name, regtype));
-- 
2.43.0


From 3d2606451b363c2aac6fff7420bad9dca80d26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 22/60] fix: relative names hidden by a removed type stay
 undefined after Registry::remove()

---
 typelib/registry.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index aa4b1b0..e07066c 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -659,14 +659,8 @@ namespace Typelib
             else ++global_it;
         }
 
-        NameMap::iterator current_it = m_current.begin(), current_end = m_current.end();
-        while (current_it != current_end)
-        {
-            if (types.count(current_it->second.type))
-                m_current.erase(current_it++);
-            else ++current_it;
-        }
-
+        // Types that were hidden by the removed ones have to be visible again
+        updateCurrentNameMap();
         return types;
     }
 
-- 
2.43.0


From fbb38502f71dbf51b8deca639a84a08963082ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 23/60] fix: merging a compound that refers to an array of
 itself gives the array a wrong size

---
 typelib/typemodel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index a2d7f1c..51c5972 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -367,6 +367,9 @@ namespace Typelib
     Type* Compound::do_merge(Registry& registry, RecursionStack& stack) const
     {
         unique_ptr<Compound> result(new Compound(getName()));
+        // Types that refer to this one by value (arrays) can be created while
+        // the fields are being merged, and they need its size
+        result->setSize(getSize());
         RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get())).first;
 
         try  {
@@ -378,7 +381,6 @@ namespace Typelib
             throw;
         }
 
-        result->setSize(getSize());
         return result.release();
     }
     std::set<Type const*> Compound::dependsOn() const
-- 
2.43.0


From 08ca17aa31d71255018ec9d33e005e86ff81a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 24/60] fix: a refused merge leaves types in the target that
 refer to a deleted compound

---
 typelib/typemodel.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 51c5972..c56d6af 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -378,6 +378,14 @@ namespace Typelib
         }
         catch(...) {
             stack.erase(onStackIter);
+            // The types that already refer to the incomplete compound must not
+            // outlive it
+            std::set<Type*> dependents = registry.remove(*result);
+            for (std::set<Type*>::iterator it = dependents.begin(); it != dependents.end(); ++it)
+            {
+                if (*it != result.get())
+                    delete *it;
+            }
             throw;
         }
 
-- 
2.43.0


From e6700dfe9cf8ff628d2e0bdd42966e639369cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 25/60] fix: vectors keep the layout their element type had
 when they were created

---
 lang/csupport/containers.cc | 32 ++++++++++++++++++++++++--------
 lang/csupport/containers.hh | 11 ++++++++++-
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 7ae4e41..228b49d 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -21,18 +21,34 @@ string Vector::fullName(std::string const& element_name)
 
 Vector::Vector(Type const& on)
     : Container("/std/vector", fullName(on.getName()), getNaturalSize(), on)
-    , element_layout(getElementLayout(on))
+    , element_layout_known(false)
 {
 }
 
+MemoryLayout const& Vector::elementLayout() const
+{
+    if (!element_layout_known)
+    {
+        element_layout = getElementLayout(getIndirection());
+        element_layout_known = true;
+    }
+    return element_layout;
+}
+
+bool Vector::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
+{
+    element_layout_known = false;
+    return Container::do_resize(registry, new_sizes);
+}
+
 bool Vector::isElementMemcpy() const
 {
-    return element_layout.isMemcpy();
+    return elementLayout().isMemcpy();
 }
 
 bool Vector::hasElementLayout() const
 {
-    return !element_layout.isEmpty();
+    return !elementLayout().isEmpty();
 }
 
 MemoryLayout Vector::getElementLayout(Type const& element_t)
@@ -120,7 +136,7 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     {
         // Need to destroy the elements that are at the end of the container
         for (size_t i = new_raw_size; i < old_raw_size; i += element_size)
-            Typelib::destroy(&(*ptr)[i], element_layout);
+            Typelib::destroy(&(*ptr)[i], elementLayout());
     }
 
 
@@ -133,9 +149,9 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
         size_t copy_raw_size = std::min(old_raw_size, new_raw_size);
         for (size_t i = 0; i < copy_raw_size; i += element_size)
         {
-            Typelib::init(&new_buffer[i], element_layout);
-            Typelib::copy(&new_buffer[i], &(*ptr)[i], element_layout);
-            Typelib::destroy(&(*ptr)[i], element_layout);
+            Typelib::init(&new_buffer[i], elementLayout());
+            Typelib::copy(&new_buffer[i], &(*ptr)[i], elementLayout());
+            Typelib::destroy(&(*ptr)[i], elementLayout());
         }
         ptr->swap(new_buffer);
     }
@@ -144,7 +160,7 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     {
         // Need to initialize the new elements at the end of the container
         for (size_t i = old_raw_size; i < new_raw_size; i += element_size)
-            Typelib::init(&(*ptr)[i], element_layout);
+            Typelib::init(&(*ptr)[i], elementLayout());
     }
 }
 
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 75a6d6f..0439928 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -12,7 +12,16 @@ class Vector : public Typelib::Container
     void erase(std::vector<uint8_t>* ptr, size_t idx) const;
     std::string getIndirectTypeName(std::string const& element_name) const;
 
-    Typelib::MemoryLayout element_layout;
+    /** The layout of the elements
+     *
+     * It is computed when needed for the first time, as the element type might
+     * not be complete yet when the vector type is created, and computed again
+     * after a resize
+     */
+    mutable Typelib::MemoryLayout element_layout;
+    mutable bool element_layout_known;
+    Typelib::MemoryLayout const& elementLayout() const;
+    bool do_resize(Typelib::Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
 public:
     static std::string fullName(std::string const& element_name);
-- 
2.43.0


From 7b2d539a7ead612b95f1d045b59dce2aec03016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 26/60] fix: Registry::merge() replaces the source ID of a type
 when the source has a type with the name of one of its aliases

---
 typelib/registry.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index e07066c..9da95a5 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -185,8 +185,14 @@ namespace Typelib
             if (it == end())
                 continue;
 
+            // The source ID is stored with the type itself, 'it' might be an
+            // alias of it
+            RegistryIterator type_it = find(it->getName());
+            if (type_it == end())
+                continue;
+
             string source_id = other_it.getSource();
-            if (!source_id.empty() && it.getSource().empty())
+            if (!source_id.empty() && type_it.getSource().empty())
                 setSourceID(*it, source_id);
         }
     }
-- 
2.43.0


From 1f0f57dab58f13d1d2960978c8a741c5605d4cf3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 27/60] fix: Registry::resize() dereferences a null pointer for
 an unknown type

Refuse with Undefined, before anything is modified.
---
 typelib/registry.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 9da95a5..350ae11 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -590,6 +590,12 @@ namespace Typelib
         // First, do a copy of new_sizes for our own use. Most importantly, we
         // resolve aliases
         SizeMap sizes;
+        for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
+                it != new_sizes.end(); ++it)
+        {
+            if (!get_(it->first))
+                throw Undefined(it->first);
+        }
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-- 
2.43.0


From c210bab9c83abaed3f4da0894937a90996a7326f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 28/60] fix: resizing a type that refers to itself recurses
 endlessly

Only arrays have a size that follows the size of the type they are built on.
Indirect::do_resize() resized the pointed-to type, which loops on types that
refer back to themselves through a pointer or a container.
---
 typelib/typemodel.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index c56d6af..8a47aea 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -276,8 +276,10 @@ namespace Typelib
 
     bool Indirect::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        bool result = Type::do_resize(registry, new_sizes);
-        return registry.get_(getIndirection()).resize(registry, new_sizes) || result;
+        // The size of a pointer or container does not depend on the size of the
+        // type it refers to, and this type might refer back to the type that
+        // is being resized
+        return Type::do_resize(registry, new_sizes);
     }
 
     Compound::Compound(std::string const& name)
@@ -549,8 +551,9 @@ namespace Typelib
 
     bool Array::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        if (!Indirect::do_resize(registry, new_sizes))
-            return false;
+        bool result = Indirect::do_resize(registry, new_sizes);
+        if (!registry.get_(getIndirection()).resize(registry, new_sizes))
+            return result;
 
         setSize(getDimension() * getIndirection().getSize());
         return true;
-- 
2.43.0


From 79abd686b8709ddae2439194bb67cfbb2bb43542 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 29/60] fix: compounds whose size does not change are resized
 repeatedly

When one field grows by as much as others shrink, the fields in between were
moved each time the compound was visited.
---
 typelib/typemodel.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 8a47aea..20bb0ef 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -404,6 +404,7 @@ namespace Typelib
     bool Compound::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
         size_t global_offset = 0;
+        bool modified = false;
         for (FieldList::iterator it = m_fields.begin(); it != m_fields.end(); ++it)
         {
             it->setOffset(it->getOffset() + global_offset);
@@ -413,14 +414,13 @@ namespace Typelib
             {
                 size_t old_size = new_sizes.find(field_type.getName())->second.first;
                 global_offset += field_type.getSize() - old_size;
+                modified = true;
             }
         }
-        if (global_offset != 0)
-        {
-            setSize(getSize() + global_offset);
-            return true;
-        }
-        return false;
+        // One field might have grown by as much as another shrunk. The compound
+        // is modified nonetheless, and must not be updated a second time.
+        setSize(getSize() + global_offset);
+        return modified;
     }
 
     void Compound::mergeMetaData(Type const& other) const
-- 
2.43.0


From 36177dbd168ed74fc0171c36d27ce2a168bcdd3a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 30/60] fix: fields of an explicitly resized type do not follow
 their resized types

Registry::resize() with both a compound and the type of one of its fields left
the fields of the compound overlapping. The element layout cached by an
explicitly resized vector was not invalidated either.
---
 typelib/registry.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 350ae11..6b73538 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -606,6 +606,20 @@ namespace Typelib
             t.setSize(it->second);
         }
 
+        // The types that are explicitly resized get the size they were given,
+        // but their fields must follow the other resized types as well
+        SizeMap const explicit_sizes(sizes);
+        for (SizeMap::const_iterator it = explicit_sizes.begin(); it != explicit_sizes.end(); ++it)
+        {
+            Type& t = *get_(it->first);
+            size_t new_size = t.getSize();
+            sizes.erase(it->first);
+            t.setSize(it->second.first);
+            t.resize(*this, sizes);
+            t.setSize(new_size);
+            sizes[it->first] = it->second;
+        }
+
         for(Iterator it = begin(); it != end(); ++it)
         {
             if (it.isAlias()) continue;
-- 
2.43.0


From f43dc52e09b1723a78361bc5d5cf370abb6f3657 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 31/60] fix: pushing an element of a vector into the same
 vector reads freed memory

---
 lang/csupport/containers.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 228b49d..003e35d 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -164,6 +164,17 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     }
 }
 
+/** Returns which element of \c buffer is stored at \c data, or the number of
+ * elements if \c data is not in \c buffer
+ */
+static size_t findElement(std::vector<uint8_t> const* buffer, size_t element_size, uint8_t const* data)
+{
+    uint8_t const* begin = &(*buffer)[0];
+    if (buffer->empty() || data < begin || data >= begin + buffer->size())
+        return buffer->size() / element_size;
+    return (data - begin) / element_size;
+}
+
 void Vector::push(void* ptr, Value v) const
 {
     if (v.getType() != getIndirection())
@@ -173,7 +184,13 @@ void Vector::push(void* ptr, Value v) const
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
 
     size_t size = getElementCount(ptr);
+    // The value might be an element of this vector, which moves if the vector
+    // needs more space
+    size_t value_idx = findElement(vector_ptr, getIndirection().getSize(),
+            reinterpret_cast<uint8_t const*>(v.getData()));
     resize(vector_ptr, size + 1);
+    if (value_idx < size)
+        v = Value(&(*vector_ptr)[value_idx * getIndirection().getSize()], getIndirection());
     Typelib::copy(
             Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
             v);
-- 
2.43.0


From 5a63181c9fbbbd819585475059582a9197939aeb Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 32/60] fix: looking up a field in an array, container or
 pointer finds the field of an element

---
 typelib/value.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/value.hh b/typelib/value.hh
index 9ba7e78..335217f 100644
--- a/typelib/value.hh
+++ b/typelib/value.hh
@@ -121,6 +121,10 @@ namespace Typelib
         {
             m_name = name;
             m_field = Value();
+            // Only compounds have fields: do not look for them in the elements
+            // of arrays and containers or behind pointers
+            if (v.getType().getCategory() != Type::Compound)
+                throw FieldNotFound(name);
             ValueVisitor::apply(v);
             if (! m_field.getData())
                 throw FieldNotFound(name);
-- 
2.43.0


From 2198ff634eb5bc0da56c7dee6c2e376c2249c616 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 33/60] fix: values of compounds, arrays and pointers are cast
 to the type of their first element

---
 typelib/value_cast.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/value_cast.hh b/typelib/value_cast.hh
index 9ccf03b..3861f3f 100644
--- a/typelib/value_cast.hh
+++ b/typelib/value_cast.hh
@@ -29,6 +29,10 @@ namespace Typelib
         T& apply(Value v)
         {
             m_found = false;
+            // A value whose first field or element is of type T is not of type
+            // T itself, nor is a pointer to a T
+            if (v.getType().getCategory() != Type::Numeric)
+                throw BadValueCast();
             ValueVisitor::apply(v);
             if (!m_found)
                 throw BadValueCast();
-- 
2.43.0


From d8f6c251d98f3c8c56edb421a83d9082f2c32acc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 34/60] fix: opaque fields have a column in the CSV header but
 none in the lines

---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..4929288 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -95,7 +95,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From 7937247e9befc8fb3b132ad01bb684b3c355abec Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 35/60] fix: names, symbols and meta-data with special
 characters do not survive the native format

---
 lang/tlb/export.cc | 54 +++++++++++++++++++++++++++++++++-------------
 lang/tlb/import.cc | 25 ++++++++++++++-------
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..3f5cfb5 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -48,19 +48,43 @@ namespace
     TlbExportVisitor::TlbExportVisitor(ostream& stream, string const& base_indent, std::string const& source_id)
         : m_stream(stream), m_indent(base_indent), m_source_id(source_id) {}
 
+    // Text as it must be written between the quotes of an attribute
     std::string xmlEscape(std::string const& source)
     {
-        string result = source;
-        size_t pos = result.find_first_of("<>");
-        while (pos != string::npos)
+        string result;
+        for (size_t i = 0; i < source.length(); ++i)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            switch (source[i])
+            {
+                case '<': result += "&lt;"; break;
+                case '>': result += "&gt;"; break;
+                case '&': result += "&amp;"; break;
+                case '"': result += "&quot;"; break;
+                // An XML parser reads these as spaces
+                case '\t': result += "&#9;"; break;
+                case '\n': result += "&#10;"; break;
+                case '\r': result += "&#13;"; break;
+                default: result += source[i]; break;
+            }
         }
+        return result;
+    }
 
+    // Text as it must be written between <![CDATA[ and ]]>
+    std::string cdataEscape(std::string const& source)
+    {
+        string result;
+        for (size_t i = 0; i < source.length(); ++i)
+        {
+            // An end mark is split between two blocks
+            if (source[i] == '>' && i >= 2 && source[i - 1] == ']' && source[i - 2] == ']')
+                result += "]]><![CDATA[>";
+            // An XML parser reads a bare carriage return as a newline
+            else if (source[i] == '\r')
+                result += "]]>&#13;<![CDATA[";
+            else
+                result += source[i];
+        }
         return result;
     }
 
@@ -78,12 +102,12 @@ namespace
             MetaData::Values values = it->second;
             if (values.empty())
             {
-                stream << "<metadata key=\"" << key << "\" />";
+                stream << "<metadata key=\"" << xmlEscape(key) << "\" />";
             }
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << xmlEscape(key) << "\"><![CDATA[" << cdataEscape(*it_value) << "]]></metadata>\n";
             }
         }
         return stream.str();
@@ -121,7 +145,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -150,7 +174,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -160,7 +184,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -207,11 +231,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..3e404fe 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -69,18 +69,27 @@ namespace
             string key = getAttribute<string>(xml, "key");
             metadata.add(key, MetaData::Values());
 
-            // Look at a child CDATA block
-            xmlNodePtr cdata = xml->children;
-            for(; cdata; cdata=cdata->next)
+            // The value is a CDATA block. It is cut into several blocks, with
+            // text between them, where it cannot be written as one
+            bool has_value = false;
+            string value, text;
+            for(xmlNodePtr child = xml->children; child; child=child->next)
             {
-                if (cdata->type == XML_CDATA_SECTION_NODE)
+                string content;
+                if (child->content)
+                    content = reinterpret_cast<char const*>(child->content);
+
+                if (child->type == XML_CDATA_SECTION_NODE)
                 {
-                    std::string value = reinterpret_cast<char const*>(cdata->content);
-                    metadata.add(key, value);
-                    break;
+                    has_value = true;
+                    value += text + content;
+                    text.clear();
                 }
+                else if (has_value && child->type == XML_TEXT_NODE)
+                    text += content;
             }
-
+            if (has_value)
+                metadata.add(key, value);
         }
     }
 
-- 
2.43.0


From a19beeaa934cabbde5125778b2b2ea94abfffaa6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 36/60] fix: IDL export declares enums and blobs under the name
 they are referred to by

---
 lang/idl/export.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..b2c35f9 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -350,7 +350,7 @@ namespace
 
     bool IDLExportVisitor::visit_ (Enum const& type)
     {
-        m_stream << m_indent << "enum " << stripLeadingUnderscore(type.getBasename()) << " { ";
+        m_stream << m_indent << "enum " << normalizeIDLName(type.getBasename()) << " { ";
 
         list<string> symbols;
         Enum::ValueMap const& values = type.values();
@@ -589,14 +589,17 @@ bool IDLExport::save
         // in a temporary ostringstream and change namespace only if some output
         // has actually been generated
 
-        if (m_blob_threshold && static_cast<int>(type->getSize()) > m_blob_threshold)
+        // Numbers and containers are not referred to by their own name, and
+        // cannot be replaced
+        bool replaceable = type->getCategory() != Type::Numeric && type->getCategory() != Type::Container;
+        if (m_blob_threshold && replaceable && static_cast<int>(type->getSize()) > m_blob_threshold)
         {
             string target_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
             size_t ns_size = namespaceIndentLevel(target_namespace);
             string indent_string = string(ns_size * 4, ' ');
 
             adaptNamespace(stream, target_namespace);
-            stream << indent_string << "typedef sequence<octet> " << type->getBasename() << ";\n";
+            stream << indent_string << "typedef sequence<octet> " << normalizeIDLName(type->getBasename()) << ";\n";
             return true;
         }
         else
-- 
2.43.0


From c1fc52be53b071d65c3634ae9124be3c9a012ad7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 37/60] fix: IDL export refuses sequences of arrays and
 integers that IDL does not have

---
 lang/idl/export.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index b2c35f9..c234da8 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -178,6 +178,9 @@ namespace
         }
         else
         {
+            if (type.getIndirection().getCategory() == Type::Array)
+                throw UnsupportedType(type, "sequences of arrays are not supported in IDL");
+
             // Get the basename for "kind"
             m_namespace = getIDLBase(type.getIndirection()).first;
             // We generate all containers in orogen::Corba, even if their
@@ -214,6 +217,7 @@ namespace
                 case 2: m_front += "short"; break;
                 case 4: m_front += "long"; break;
                 case 8: m_front += "long long"; break;
+                default: throw UnsupportedType(type, "IDL has no integer of this size");
             }
         }
         else
@@ -429,7 +433,9 @@ void IDLExport::checkType(Type const& type)
         if (pointed_to == Type::Array || pointed_to == Type::Pointer)
             throw UnsupportedType(type, "multi-dimensional arrays are not supported yet");
     }
-
+    if (type.getCategory() == Type::Container
+            && static_cast<Indirect const&>(type).getIndirection().getCategory() == Type::Array)
+        throw UnsupportedType(type, "sequences of arrays are not supported in IDL");
 }
 
 void IDLExport::adaptNamespace(ostream& stream, string const& ns)
-- 
2.43.0


From b93c9a1e082c2a61e9c28ecf5853b0d7e6e73433 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 38/60] fix: an IDL exporter can be used several times

---
 lang/idl/export.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index c234da8..116706c 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -489,6 +489,12 @@ void IDLExport::save
     m_opaque_as_any  = config.get<bool>("opaque_as_any", false);
     list<string> selection = config.get< list<string> >("selected");
     m_selected_types = set<string>(selection.begin(), selection.end());
+
+    // Forget about what has been saved before
+    m_namespace = "/";
+    m_indent.clear();
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
     return Exporter::save(stream, config, type);
 }
 
-- 
2.43.0


From 0f7c421fea28fd7723d93e2bb92f24c8069021f6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 39/60] fix: dumps to streams and files report write failures

---
 typelib/value_ops.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index e3cb7fc..80598d4 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -634,6 +634,8 @@ struct OstreamOutputStream : public OutputStream
     void write(boost::uint8_t const* data, size_t size)
     {
         stream.write(reinterpret_cast<char const*>(data), size);
+        if (!stream)
+            throw std::runtime_error("write failed in ValueOps::dump");
     }
 };
 void Typelib::dump(Value v, std::ostream& ostream)
@@ -703,7 +705,8 @@ struct FileOutputStream : public OutputStream
 
     void write(boost::uint8_t const* data, size_t size)
     {
-        ::fwrite(data, size, 1, fd);
+        if (::fwrite(data, 1, size, fd) != size)
+            throw std::runtime_error("write failed in ValueOps::dump");
     }
 };
 void Typelib::dump(Value v, FILE* fd)
-- 
2.43.0


From e268cfc8f3fd0a0be753c0ffdd6f94c77e17c6c4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 40/60] fix: wrappers no longer share zone objects the garbage
 collector may already have found dead

---
 bindings/ruby/ext/memory.cc | 82 +++++++++++++------------------------
 1 file changed, 29 insertions(+), 53 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..cecbf7d 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -43,18 +43,18 @@ static struct st_hash_type memory_table_type = {
 };
 #endif
 
+/* The users of a registered address are the MemoryZone objects that refer to it
+ * and the entries which have it as root. The table does not keep the zone
+ * objects themselves: it is not told which of them the garbage collector has
+ * already found dead (or has moved)
+ */
 struct MemoryTableEntry
 {
     int refcount;
-    VALUE object;
     bool owned;
     void* root_ptr;
-    MemoryTableEntry(VALUE object, bool owned, void* root_ptr = 0)
-        : refcount(1), object(object), owned(owned), root_ptr(root_ptr)
-    {
-        if (root_ptr && owned)
-            rb_raise(rb_eArgError, "given both a root pointer and owned=true for object %llu", NUM2ULL(rb_obj_id(object)));
-    }
+    MemoryTableEntry(bool owned, void* root_ptr = 0)
+        : refcount(1), owned(owned), root_ptr(root_ptr) {}
 };
 
 struct RbMemoryLayout
@@ -181,41 +181,29 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
-static VALUE
-memory_aref(void *ptr)
-{
-    MemoryTableEntry* entry;
-    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry)) {
-        return Qnil;
-    }
-    if ((VALUE)entry == Qundef)
-        rb_bug("found undef in memory table");
-
-    return entry->object;
-}
-
+/* Registers one more user of ptr */
 static void
-memory_aset(void *ptr, VALUE obj, bool owned, void* root_ptr)
+memory_aset(void *ptr, bool owned, void* root_ptr)
 {
-    if (! NIL_P(memory_aref(ptr)))
-        rb_raise(rb_eArgError, "there is already a wrapper for %p", ptr);
+    MemoryTableEntry* entry = 0;
+    if (memory_ref(ptr))
+    {
+        // An outdated zone might remain at the address of newly allocated
+        // memory
+        if (owned && st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry))
+            entry->owned = true;
+        return;
+    }
 
     if (ptr == root_ptr)
         rb_raise(rb_eArgError, "pointer and root pointer are equal");
+    if (root_ptr && owned)
+        rb_raise(rb_eArgError, "given both a root pointer and owned=true for %p", ptr);
+    if (root_ptr && !memory_ref(root_ptr))
+        rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
 
-    if (!memory_ref(ptr))
-    {
-        MemoryTableEntry* entry = new MemoryTableEntry(obj, owned, root_ptr);
-        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
-
-        if (root_ptr)
-        {
-            MemoryTableEntry* root_entry = 0;
-            if (!st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
-                rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
-            ++(root_entry->refcount);
-        }
-    }
+    entry = new MemoryTableEntry(owned, root_ptr);
+    st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
 }
 
 VALUE
@@ -267,24 +255,12 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
-    VALUE zone = memory_aref(ptr);
-    if (NIL_P(zone))
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
-#       endif
-
-        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
-        memory_aset(ptr, zone, take_ownership, root_ptr);
-    }
-    else
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: already known memory zone\n", ptr);
-#       endif
-    }
+#   ifdef VERBOSE
+    fprintf(stderr, "%p: wrapping memory zone\n", ptr);
+#   endif
 
-    return zone;
+    memory_aset(ptr, take_ownership, root_ptr);
+    return Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
 }
 
 void*
-- 
2.43.0


From 70c5f23199e806e077321723ed51301c0b958d82 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 41/60] fix: large unsigned numbers convert to Ruby and back

---
 bindings/ruby/ext/convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
-- 
2.43.0


From 32050ce6c88c1597950e1da5222a4d7a2a44bbdd Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:10:27 +0000
Subject: [PATCH 42/60] fix: do not generate minimal paths that a deeper
 namespace hides

The first name of a path was only compared, together with the rest of the
path, to the text of the namespace it is used from. The path to /A/X/Y/T
from /A/C/X was X/Y/, which resolves to /A/C/X/Y/.
---
 typelib/typename.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 51a912b..4841a41 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -1,6 +1,7 @@
 #include "typename.hh"
 #include <boost/static_assert.hpp>
 #include <iostream>
+#include <set>
 
 using namespace std;
 using namespace boost;
@@ -278,9 +279,15 @@ namespace Typelib
         for (++remainder_it; remainder_it != tok1.end(); ++remainder_it)
             result += Typelib::NamespaceMarkString + *remainder_it;
 
-        while (!common_tokens.empty() && ns.find(result) != string::npos)
+        // The remainder is looked up by its first name, which must not be known in
+        // a namespace deeper than the one the remainder is relative to
+        std::string first = *it1;
+        std::set<std::string> deeper(it2, list<string>::const_iterator(tok2.end()));
+        while (!common_tokens.empty() && (ns.find(result) != string::npos || deeper.count(first)))
         {
-            result = common_tokens.back() + Typelib::NamespaceMarkString + result;
+            deeper.insert(first);
+            first = common_tokens.back();
+            result = first + Typelib::NamespaceMarkString + result;
             common_tokens.pop_back();
         }
         if (common_tokens.empty())
-- 
2.43.0


From 5b5b1c704baf29c9b794451a46ddec0e39cd1ed0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 43/60] fix: raise the errors of the library in Ruby instead of
 ending the interpreter

to_byte_array, from_buffer, zero!, copy, to_csv, the container operations,
endian_swap and the creation of enums let C++ exceptions, e.g. NoLayout for
types with pointers, go through the interpreter, which ends the process.
---
 bindings/ruby/ext/registry.cc          |  3 +-
 bindings/ruby/ext/specialized_types.cc | 26 +++++++++++-----
 bindings/ruby/ext/value.cc             | 43 +++++++++++++++++++-------
 3 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..ff9c2bb 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -635,7 +635,8 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
         VALUE rb_name = rb_ary_entry(sym, 0);
         std::string sym_name(StringValuePtr(rb_name));
         int sym_value(NUM2INT(rb_ary_entry(sym, 1)));
-        new_t->add(sym_name, sym_value);
+        try { new_t->add(sym_name, sym_value); }
+        catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
     }
 
     Typelib::Enum* type = new_t.release();
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..f60ac87 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -458,7 +458,9 @@ static VALUE container_clear(VALUE self)
     Value value = rb2cxx::object<Value>(self);
     Container const& type(dynamic_cast<Container const&>(value.getType()));
 
-    type.clear(value.getData());
+    try { type.clear(value.getData()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return Qnil;
 }
 
@@ -488,7 +490,9 @@ static VALUE container_do_push(VALUE self, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.push(container_v.getData(), element_v);
+    try { container_t.push(container_v.getData(), element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -499,7 +503,10 @@ static VALUE container_do_set(VALUE self, VALUE index, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.setElement(container_v.getData(), NUM2INT(index), element_v);
+    int i = NUM2INT(index);
+    try { container_t.setElement(container_v.getData(), i, element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -566,10 +573,11 @@ static VALUE container_erase(VALUE self, VALUE obj)
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
 
-    if (container_t.erase(container_v.getData(), element_v))
-        return Qtrue;
-    else
-        return Qfalse;
+    bool erased = false;
+    try { erased = container_t.erase(container_v.getData(), element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
+    return erased ? Qtrue : Qfalse;
 }
 
 bool container_delete_if_i(Value v, VALUE registry, VALUE container)
@@ -590,7 +598,9 @@ static VALUE container_delete_if(VALUE self)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
 
     VALUE registry = value_get_registry(self);
-    container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self));
+    try { container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self)); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..1837dd1 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -161,7 +161,9 @@ static VALUE type_to_csv(int argc, VALUE* argv, VALUE rbself)
 
     Type const& self(rb2cxx::object<Type>(rbself));
     std::ostringstream stream;
-    stream << csv_header(self, bname, sep);
+    try { stream << csv_header(self, bname, sep); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     std::string str = stream.str();
     return rb_str_new(str.c_str(), str.length());
 }
@@ -465,12 +467,14 @@ VALUE value_do_from_buffer(VALUE rbself, VALUE string, VALUE pointers, VALUE opa
 {
     Value value  = rb2cxx::object<Value>(rbself);
 
-    MemoryLayout layout = Typelib::layout_of(value.getType(),
-            RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
-
     char* ruby_buffer = StringValuePtr(string);
     vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
-    try { Typelib::load(value, cxx_buffer, layout); }
+    try
+    {
+        MemoryLayout layout = Typelib::layout_of(value.getType(),
+                RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        Typelib::load(value, cxx_buffer, layout);
+    }
     catch(std::exception const& e)
     { rb_raise(rb_eArgError, "%s", e.what()); }
     return rbself;
@@ -517,7 +521,9 @@ VALUE value_endian_swap(VALUE self)
 {
     Value& value = rb2cxx::object<Value>(self);
     CompileEndianSwapVisitor compiled;
-    compiled.apply(value.getType());
+    try { compiled.apply(value.getType()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 
     VALUE registry = value_get_registry(self);
     VALUE result   = value_allocate(value.getType(), registry);
@@ -536,7 +542,9 @@ static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
     Value& value = rb2cxx::object<Value>(self);
-    endian_swap(value);
+    try { endian_swap(value); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -577,10 +585,15 @@ static
 VALUE value_do_byte_array(VALUE self, VALUE pointers, VALUE opaques, VALUE merge, VALUE remove_trailing_skips)
 {
     Value& value = rb2cxx::object<Value>(self);
-    MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
 
     vector<uint8_t> buffer;
-    Typelib::dump(value, buffer, layout);
+    try
+    {
+        MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        Typelib::dump(value, buffer, layout);
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
 }
 
@@ -635,7 +648,9 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
     if (!NIL_P(separator)) sep = StringValuePtr(separator);
 
     std::ostringstream stream;
-    stream << csv(value.getType(), value.getData(), sep);
+    try { stream << csv(value.getType(), value.getData(), sep); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     std::string str = stream.str();
     return rb_str_new(str.c_str(), str.length());
 }
@@ -644,7 +659,9 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
 static VALUE value_zero(VALUE self)
 {
     Value const& value(rb2cxx::object<Value>(self));
-    Typelib::zero(value);
+    try { Typelib::zero(value); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -659,7 +676,9 @@ static VALUE typelib_do_copy(VALUE, VALUE to, VALUE from)
         if (!v_from.getType().canCastTo(v_to.getType()))
             rb_raise(rb_eArgError, "cannot copy: types are not compatible");
     }
-    Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType());
+    try { Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return to;
 }
 
-- 
2.43.0


From e2d2b2fb8241ca810095904400825f56e97baf32 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 44/60] fix: do not write in front of character arrays of
 dimension zero

---
 bindings/ruby/ext/strings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..a9c4f0a 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -66,7 +66,7 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     string_buffer_get(value, buffer, buffer_size);
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
-    if ((buffer_size - 1) < from_length)
+    if (buffer_size <= from_length)
         rb_raise(rb_eArgError, "array to small: %lu, while %lu was needed", buffer_size, from_length + 1);
 
     strncpy(buffer, StringValueCStr(from), buffer_size);
-- 
2.43.0


From 118cc8ea34e86f37ff386f02644c266f1d256d10 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:28:28 +0000
Subject: [PATCH 45/60] fix: destroy empty vectors whose elements have no
 memory layout

---
 lang/csupport/containers.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 003e35d..138dbf7 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -117,6 +117,10 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     size_t old_size       = getElementCount(ptr);
     size_t new_raw_size   = new_size * element_size;
 
+    // Empty vectors must be destroyed even if their elements have no layout
+    if (new_size == old_size)
+        return;
+
     if (!hasElementLayout())
         throw std::runtime_error("could not compute layout for element type " + element_t.getName() + ", cannot copy");
 
-- 
2.43.0


From 7241f9b7d2c570a9551f92d7674e4f17d06bebfa Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:28:28 +0000
Subject: [PATCH 46/60] fix: raise when an alias is already defined instead of
 ending the interpreter

---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index ff9c2bb..69e6e15 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -193,6 +193,8 @@ VALUE registry_alias(VALUE self, VALUE name, VALUE aliased)
         rb_raise(rb_eArgError, "invalid type name %s", StringValuePtr(name));
     } catch(Undefined const&) {
         rb_raise(eNotFound, "there is no type in this registry with the name '%s'", StringValuePtr(aliased));
+    } catch(std::exception const& e) {
+        rb_raise(rb_eArgError, "%s", e.what());
     }
 }
 
-- 
2.43.0


From 1e8d5781dfd2f50d53a54fb5e51d3208a7b61c55 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:28:28 +0000
Subject: [PATCH 47/60] fix: refuse to copy strings through char pointers in
 Ruby

---
 bindings/ruby/ext/strings.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index a9c4f0a..a98f5a3 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -58,7 +58,8 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     Type  const& type(value.getType());
     Registry const& registry = rb2cxx::object<Registry>(value_get_registry(self));
 
-    if (!RTEST(known_good_type) && !is_string_handler(registry, type, true))
+    // There is no knowing how much memory a pointer leads to
+    if (type.getCategory() == Type::Pointer || (!RTEST(known_good_type) && !is_string_handler(registry, type, true)))
         rb_raise(rb_eTypeError, "Ruby strings can only be converted to char arrays");
 
     char * buffer;
-- 
2.43.0


From 49af5d07ba9c0eab15ba8b11e59a0beb83561b97 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 48/60] fix: raise TypeError for numbers without a Ruby
 representation

---
 bindings/ruby/ext/convert.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 2386fa0..a283dee 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -151,8 +151,17 @@ VALUE typelib_to_ruby(Value v, VALUE registry, VALUE parent)
     if (! v.getData())
         return Qnil;
 
-    RubyGetter getter;
-    return getter.apply(v, registry, parent);
+    std::string type_name;
+    std::string reason;
+    try {
+        RubyGetter getter;
+        return getter.apply(v, registry, parent);
+    } catch(UnsupportedType const& e) {
+        // Avoid calling rb_raise in exception context
+        type_name = e.type.getName();
+        reason    = e.reason;
+    }
+    rb_raise(rb_eTypeError, "cannot convert '%s' to a Ruby object (%s)", type_name.c_str(), reason.c_str());
 }
 
 /* Returns the Value object wrapped into +value+ */
-- 
2.43.0


From 877669f21cf22da452dbecb912ce6d21f9d733b5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 49/60] fix: raise for the marshalling size of values with null
 elements

---
 bindings/ruby/ext/value.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 1837dd1..889e423 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -610,6 +610,8 @@ VALUE value_marshalling_size(VALUE self)
     try { return INT2NUM(Typelib::getDumpSize(value)); }
     catch(Typelib::NoLayout const&)
     { return Qnil; }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 }
 
 VALUE value_memory_eql_p(VALUE rbself, VALUE rbwith)
-- 
2.43.0


From 3529853b1c25152becf70b45037a05ba86eab2fe Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:36:24 +0000
Subject: [PATCH 50/60] fix: raise when an assigned value cannot be copied
 instead of ending the interpreter

---
 bindings/ruby/ext/convert.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index a283dee..fa1e548 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -182,7 +182,11 @@ VALUE typelib_from_ruby(Value dst, VALUE new_value)
         Type const& dst_t = dst.getType();
         Type const& src_t = src.getType();
         if (dst_t == src_t)
-            Typelib::copy(dst, src);
+        {
+            try { Typelib::copy(dst, src); }
+            catch(std::exception const& e)
+            { rb_raise(rb_eArgError, "%s", e.what()); }
+        }
         else
         {
             rb_raise(rb_eArgError, "wrong type in assignment: %s = %s", dst_t.getName().c_str(), src_t.getName().c_str());
@@ -199,6 +203,9 @@ VALUE typelib_from_ruby(Value dst, VALUE new_value)
         // Avoid calling rb_raise in exception context
         type_name = e.type.getName();
         reason    = e.reason;
+    } catch(NullTypeFound const&) {
+        type_name = dst.getType().getName();
+        reason    = "null type";
     }
 
     if (reason.length() == 0)
-- 
2.43.0


From e837e7fb18c17bb8b6ad7a89385e8795c41c3174 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 51/60] fix: do not divide by the size of elements that have
 none

---
 lang/csupport/containers.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 138dbf7..6301e30 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -65,7 +65,10 @@ MemoryLayout Vector::getElementLayout(Type const& element_t)
 size_t Vector::getElementCount(void const* ptr) const
 {
     size_t byte_count = reinterpret_cast< std::vector<int8_t> const* >(ptr)->size();
-    return byte_count / getIndirection().getSize();
+    size_t element_size = getIndirection().getSize();
+    if (element_size == 0)
+        return 0;
+    return byte_count / element_size;
 }
 void Vector::init(void* ptr) const
 {
@@ -449,7 +452,10 @@ String::String(Type const& on)
 size_t String::getElementCount(void const* ptr) const
 {
     size_t byte_count = reinterpret_cast< std::string const* >(ptr)->length();
-    return byte_count / getIndirection().getSize();
+    size_t element_size = getIndirection().getSize();
+    if (element_size == 0)
+        return 0;
+    return byte_count / element_size;
 }
 void String::init(void* ptr) const
 {
-- 
2.43.0


From 22dcc18315c548df9148666ca5758bcd7872a8a8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 52/60] fix: raise when a container cannot be defined instead
 of ending the interpreter

---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 69e6e15..55bb659 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -566,6 +566,8 @@ static VALUE registry_define_container(VALUE registry, VALUE kind, VALUE element
         return cxx2rb::type_wrap(new_type, registry);
     } catch(Typelib::UnknownContainer const&) {
         rb_raise(eNotFound, "%s is not a known container type", StringValuePtr(kind));
+    } catch(std::exception const& e) {
+        rb_raise(rb_eArgError, "%s", e.what());
     }
 }
 
-- 
2.43.0


From 8860ba71c90af14e457d7097427b3367cb3a5a64 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 53/60] fix: raise when a container has no access to its
 elements instead of ending the interpreter

---
 bindings/ruby/ext/specialized_types.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index f60ac87..8ae7c46 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -516,7 +516,11 @@ static VALUE container_do_get(VALUE self, VALUE index, VALUE raw)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
     VALUE registry = value_get_registry(self);
 
-    Value v = container_t.getElement(container_v.getData(), NUM2INT(index));
+    int i = NUM2INT(index);
+    Value v;
+    try { v = container_t.getElement(container_v.getData(), i); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     if (RTEST(raw))
         return cxx2rb::value_wrap(v, registry, self);
     else return typelib_to_ruby(v, registry, self);
-- 
2.43.0


From 3181909e53d8be9a4689f8daa0005f4724566ca7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 04:46:34 +0000
Subject: [PATCH 54/60] fix: raise when the plugins cannot be loaded instead of
 ending the interpreter

---
 bindings/ruby/ext/registry.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 55bb659..72d6594 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -60,7 +60,10 @@ VALUE registry_wrap(VALUE klass, Registry* registry)
 static
 VALUE registry_alloc(VALUE klass)
 {
-    Registry* registry = new Registry;
+    Registry* registry = 0;
+    try { registry = new Registry; }
+    catch(std::exception const& e)
+    { rb_raise(rb_eRuntimeError, "%s", e.what()); }
     return registry_wrap(klass, registry);
 }
 
-- 
2.43.0


From d676e9b7a06d7d78c7729e4533056d0a9499d2ec Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 55/60] fix: metadata objects keep the registry of their type
 alive in Ruby

---
 bindings/ruby/ext/metadata.cc          | 7 +++++--
 bindings/ruby/ext/specialized_types.cc | 2 +-
 bindings/ruby/ext/typelib.hh           | 2 +-
 bindings/ruby/ext/value.cc             | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 1ed511b..9c1b986 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -10,9 +10,12 @@ using namespace typelib_ruby;
 VALUE typelib_ruby::cMetaData;
 rb_encoding* enc_utf8;
 
-VALUE cxx2rb::metadata_wrap(MetaData& metadata)
+VALUE cxx2rb::metadata_wrap(MetaData& metadata, VALUE registry)
 {
-    return Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    VALUE result = Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    // The metadata belongs to a type, and the type to the registry
+    rb_iv_set(result, "@__typelib_registry", registry);
+    return result;
 }
 
 static VALUE metadata_include_p(VALUE self, VALUE key)
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 8ae7c46..f1dc8be 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -33,7 +33,7 @@ static VALUE compound_get_fields(VALUE self)
         rb_ary_store(field_def, 0, field_name);
         rb_ary_store(field_def, 1, INT2FIX(it->getOffset()));
         rb_ary_store(field_def, 2, field_type);
-        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData()));
+        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData(), registry));
         rb_ary_push(fieldlist, field_def);
     }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c893879..97cb59a 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -68,7 +68,7 @@ namespace typelib_ruby {
         template<> inline VALUE class_of<MetaData>() { return cMetaData; }
 
         VALUE type_wrap(Type const& type, VALUE registry);
-        VALUE metadata_wrap(MetaData& metadata);
+        VALUE metadata_wrap(MetaData& metadata, VALUE registry);
 
         /* Get the Ruby symbol associated with a C enum, or nil
          * if the value is not valid for this enum
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 889e423..5715ab0 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -122,7 +122,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     rb_iv_set(klass, "@name", rb_str_new2(type.getName().c_str()));
     rb_iv_set(klass, "@null", (type.getCategory() == Type::NullType) ? Qtrue : Qfalse);
     rb_iv_set(klass, "@opaque", (type.getCategory() == Type::Opaque) ? Qtrue : Qfalse);
-    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData()));
+    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData(), registry));
 
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
-- 
2.43.0


From 54eaac2ede07ade16d784f9c6b64aae0ae24a425 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:19:44 +0000
Subject: [PATCH 56/60] fix: values without a Ruby representation can be
 printed

---
 bindings/ruby/lib/typelib/type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 48fe5ac..715c482 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -770,7 +770,7 @@ module Typelib
         end
 
         def raw_to_s
-            "#<#{self.class.name}: 0x#{address.to_s(16)} ptr=0x#{@ptr.zone_address.to_s(16)}>"
+            "#<#{self.class.name}: 0x#{zone_address.to_s(16)} ptr=0x#{@ptr.zone_address.to_s(16)}>"
         end
 
         def pretty_print(pp) # :nodoc:
-- 
2.43.0


From 9a7d59a55e6becf5883b6c985c1a7d0ac9e5bb50 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:22:29 +0000
Subject: [PATCH 57/60] fix: types removed from a registry live as long as the
 values that need them in Ruby

---
 bindings/ruby/ext/registry.cc | 12 ++----------
 bindings/ruby/ext/typelib.hh  | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 72d6594..cd56349 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -30,16 +30,7 @@ namespace typelib_ruby {
 static
 void registry_free(void* ptr)
 {
-    using cxx2rb::WrapperMap;
-    RbRegistry* rbregistry = reinterpret_cast<RbRegistry*>(ptr);
-    WrapperMap& wrappers = rbregistry->wrappers;
-    for (WrapperMap::iterator it = wrappers.begin(); it != wrappers.end(); ++it)
-    {
-        if (it->second.first)
-            delete it->first;
-    }
-
-    delete rbregistry;
+    delete reinterpret_cast<RbRegistry*>(ptr);
 }
 
 static
@@ -91,6 +82,7 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
     std::set<Type*> deleted = registry.remove(type);
+    boost::get_deleter<cxx2rb::RegistryDeleter>(rbregistry.registry)->removed.insert(deleted.begin(), deleted.end());
 
     VALUE result = rb_ary_new();
     std::set<Type*>::iterator it, end;
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 97cb59a..ec5c772 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -39,6 +39,21 @@ namespace typelib_ruby {
 
         typedef std::map<Type const*, std::pair<bool, VALUE> > WrapperMap;
 
+        /** Deletes a registry along with the types that were removed from it.
+         * The layouts of the memory zones share the ownership of the registry
+         * as they refer to the types */
+        struct RegistryDeleter
+        {
+            std::set<Typelib::Type*> removed;
+
+            void operator()(Typelib::Registry* registry)
+            {
+                delete registry;
+                for (std::set<Typelib::Type*>::iterator it = removed.begin(); it != removed.end(); ++it)
+                    delete *it;
+            }
+        };
+
         struct RbRegistry
         {
             boost::shared_ptr<Typelib::Registry> registry;
@@ -50,12 +65,12 @@ namespace typelib_ruby {
              * through the remove call
              *
              * In both cases, they will be deleted only when the registry is
-             * garbage collected.
+             * deleted (see RegistryDeleter)
              */
             cxx2rb::WrapperMap wrappers;
 
             RbRegistry(Typelib::Registry* registry)
-                : registry(registry) {}
+                : registry(registry, RegistryDeleter()) {}
             ~RbRegistry() {}
         };
 
-- 
2.43.0


From 8a26a13d2035c4d55005a4565d0e2d052cc3656f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 58/60] fix: refuse types of another registry as fields, and to
 remove them, in Ruby

---
 bindings/ruby/ext/registry.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index cd56349..463f4b5 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -81,6 +81,8 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     RbRegistry& rbregistry = rb2cxx::object<RbRegistry>(self);
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (!registry.isIncluded(type))
+        rb_raise(rb_eArgError, "the given type object comes from a different type registry");
     std::set<Type*> deleted = registry.remove(type);
     boost::get_deleter<cxx2rb::RegistryDeleter>(rbregistry.registry)->removed.insert(deleted.begin(), deleted.end());
 
@@ -129,6 +131,8 @@ VALUE registry_reverse_depends(VALUE self, VALUE rbtype)
 {
     Registry const& registry = rb2cxx::object<Registry>(self);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (!registry.isIncluded(type))
+        rb_raise(rb_eArgError, "the given type object comes from a different type registry");
     std::set<Type const*> rdeps = registry.reverseDepends(type);
 
     VALUE result = rb_ary_new();
@@ -602,6 +606,8 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
         std::string field_name(StringValuePtr(rb_name));
         Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
         int offset(NUM2INT(rb_ary_entry(field, 2)));
+        if (!reg.isIncluded(field_type))
+            rb_raise(rb_eArgError, "the type given for field %s comes from a different type registry", StringValuePtr(rb_name));
         new_t->addField(field_name, field_type, offset);
     }
 
-- 
2.43.0


From 39c7b417871bbfffce003932b7c3642315193628 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 59/60] fix: types may be removed from a registry while it is
 enumerated in Ruby

---
 bindings/ruby/ext/registry.cc | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 463f4b5..2de2859 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -371,23 +371,27 @@ VALUE registry_minimal(VALUE self, VALUE rb_auto, VALUE with_aliases)
 
 static void yield_types(VALUE self, bool with_aliases, RegistryIterator it, RegistryIterator end)
 {
-    if (with_aliases)
+    // The block might remove types from the registry: enumerate before calling it
+    VALUE names = rb_ary_new();
+    VALUE types = rb_ary_new();
+    for (; it != end; ++it)
     {
-        for (; it != end; ++it)
-        {
-            std::string const& type_name = it.getName();
-            VALUE rb_type_name = rb_str_new(type_name.c_str(), type_name.length());
-            rb_yield_values(2, rb_type_name, cxx2rb::type_wrap(*it, self));
-        }
+        if (!with_aliases && it.isAlias())
+            continue;
+        std::string const& type_name = it.getName();
+        rb_ary_push(names, rb_str_new(type_name.c_str(), type_name.length()));
+        rb_ary_push(types, cxx2rb::type_wrap(*it, self));
     }
-    else
+
+    for (long i = 0; i < RARRAY_LEN(types); ++i)
     {
-        for (; it != end; ++it)
-        {
-            if (!it.isAlias())
-                rb_yield(cxx2rb::type_wrap(*it, self));
-        }
+        if (with_aliases)
+            rb_yield_values(2, rb_ary_entry(names, i), rb_ary_entry(types, i));
+        else
+            rb_yield(rb_ary_entry(types, i));
     }
+    RB_GC_GUARD(names);
+    RB_GC_GUARD(types);
 }
 
 /* @overload each_type(prefix, false)
-- 
2.43.0


From adf64310738901973c1d0ec60f2367d2fb86a23c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:38:05 +0000
Subject: [PATCH 60/60] fix: saving a registry to a file reports that the data
 cannot be written

---
 typelib/exporter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/exporter.cc b/typelib/exporter.cc
index 9b4468b..a5d1ec0 100644
--- a/typelib/exporter.cc
+++ b/typelib/exporter.cc
@@ -28,6 +28,9 @@ void Exporter::save(std::string const &file_name,
     // and then call the internal "save()" function giving it the prepared
     // 'ofstream' object
     save(file, config, registry);
+    // the destructor of the 'ofstream' would ignore that the data which is
+    // still buffered cannot be written
+    file.close();
 }
 
 void Exporter::save(std::ostream& stream, utilmm::config_set const& config, Registry const& registry)
-- 
2.43.0

