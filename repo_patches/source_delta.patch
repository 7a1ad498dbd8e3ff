From 13edb314475815d623f58266844748ad2d91934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 01/38] fix: do not generate layout instructions for empty
 arrays

The operations that walk a layout (init, zero, copy, compare, destroy) find the
end of an array block by going through its elements. They were all throwing on
arrays of dimension 0.
---
 typelib/memory_layout.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..785a8fe 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -56,6 +56,10 @@ void MemoryLayout::pushArray(Array const& type, MemoryLayout const& array_ops)
 
 void MemoryLayout::pushArray(size_t dimension, MemoryLayout const& array_ops)
 {
+    // An empty array has no elements and covers no byte
+    if (dimension == 0)
+        return;
+
     ops.push_back(FLAG_ARRAY);
     ops.push_back(dimension);
     ops.insert(ops.end(), array_ops.begin(), array_ops.end());
-- 
2.43.0


From 553a07731f49598bf44b07797b2f9362e7fc7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 02/38] fix: simplification of an array without contents must
 not eat what precedes it

The pending operation is only pushed before the array if there is one. When
there was none, four elements were removed while only two had been added, which
dropped the preceding instruction or underflowed.
---
 typelib/memory_layout.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 785a8fe..fd3f44e 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -197,8 +197,9 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             }
             else if (added_ops == 0)
             {
-                // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
+                // Void all the modifications we've made so far. The pending
+                // skip, if there is one, has been pushed before the array
+                simplified.init_ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
@@ -315,8 +316,9 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             }
             else if (added_ops == 0)
             {
-                // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
+                // Void all the modifications we've made so far. The pending
+                // operation, if there is one, has been pushed before the array
+                simplified.ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
-- 
2.43.0


From 4d373670d84816c1002b8f757a157cbf065a4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 03/38] fix: keep the trailing padding in a layout when
 remove_trailing_skips is false

The trailing skips were always subtracted from the last operation.
---
 typelib/memory_layout.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index fd3f44e..98ca035 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -365,6 +365,8 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
 
     if (current_op_count)
     {
+        if (!remove_trailing_skips)
+            current_skip_count = 0;
         if (!remove_trailing_skips || current_op != FLAG_SKIP || depth > 0)
             simplified.pushGenericOp(current_op, current_op_count - current_skip_count);
     }
-- 
2.43.0


From 16e277d9d531b03be76c6ff7a91242ae33e1133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 04/38] fix: apply accept_pointers and accept_opaques to array
 and container elements

---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 98ca035..1c58c85 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -579,7 +579,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -587,7 +587,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops);
+    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
-- 
2.43.0


From cd2b2ae2bbd0ebdfa05ddb1c820c7c60aff233b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 05/38] fix: loading an empty container must remove the
 elements already in the target

---
 typelib/value_ops.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..031486a 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,10 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From 8402528e6b9298a848707c7f9c1fc6b7b903db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 06/38] fix: refuse element counts that a vector cannot hold

The size in bytes was overflowing, so that loading a value with a huge element
count would write past the end of a smaller buffer. The element count of an
empty vector was also a division by zero for elements of null size.
---
 lang/csupport/containers.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..602383c 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -6,6 +6,7 @@
 #include <boost/tuple/tuple.hpp>
 #include <string.h>
 #include <limits>
+#include <stdexcept>
 
 #include <iostream>
 
@@ -47,6 +48,8 @@ MemoryLayout Vector::getElementLayout(Type const& element_t)
 size_t Vector::getElementCount(void const* ptr) const
 {
     size_t byte_count = reinterpret_cast< std::vector<int8_t> const* >(ptr)->size();
+    if (byte_count == 0) // elements might have a null size
+        return 0;
     return byte_count / getIndirection().getSize();
 }
 void Vector::init(void* ptr) const
@@ -95,6 +98,9 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     Type const& element_t = getIndirection();
     size_t element_size = getIndirection().getSize();
 
+    if (element_size != 0 && new_size > ptr->max_size() / element_size)
+        throw std::length_error("cannot hold that many elements in a " + getName());
+
     size_t old_raw_size   = ptr->size();
     size_t old_size       = getElementCount(ptr);
     size_t new_raw_size   = new_size * element_size;
-- 
2.43.0


From f17998f8dce45334a4cd76113b2784fd341396d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 07/38] fix: report write errors when dumping to a FILE*

---
 typelib/value_ops.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 031486a..0606ea6 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -693,7 +693,9 @@ struct FileOutputStream : public OutputStream
 
     void write(boost::uint8_t const* data, size_t size)
     {
-        ::fwrite(data, size, 1, fd);
+        if (::fwrite(data, 1, size, fd) != size) {
+            throw std::runtime_error("wrote fewer bytes than expected in ValueOps::dump");
+        }
     }
 };
 void Typelib::dump(Value v, FILE* fd)
-- 
2.43.0


From ef41c0f70daa783c6b4d567b35c6ad434733048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 08/38] fix: decide from the layout in use whether vector
 elements are dumped and loaded as one block

The decision was made from the default layout of the element. With a layout that
keeps copies and skips separate, the operations of the element are not a single
copy, and dumping or loading a vector of padded structures would fail.
---
 lang/csupport/containers.cc | 12 ++++++++++--
 lang/csupport/containers.hh |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 602383c..bb54ab4 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -29,6 +29,14 @@ bool Vector::isElementMemcpy() const
     return element_layout.isMemcpy();
 }
 
+bool Vector::isElementMemcpy(
+        MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const
+{
+    return end - begin > 2 && *begin == MemLayout::FLAG_MEMCPY &&
+        *(begin + 1) == getIndirection().getSize() &&
+        *(begin + 2) == MemLayout::FLAG_END;
+}
+
 bool Vector::hasElementLayout() const
 {
     return !element_layout.isEmpty();
@@ -311,7 +319,7 @@ Container::MarshalOps::const_iterator Vector::dump(
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy(begin, end))
     {
         // optimize a bit: do a huge memcpy if possible
         size_t size       = *(++it) * element_count;
@@ -345,7 +353,7 @@ Container::MarshalOps::const_iterator Vector::load(
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy(begin, end))
     {
         size_t size       = *(++it) * element_count;
         stream.read(&(*vector_ptr)[0], size);
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 75a6d6f..825a968 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -21,6 +21,8 @@ public:
     static Typelib::MemoryLayout getElementLayout(Type const& element_t);
     bool hasElementLayout() const;
     bool isElementMemcpy() const;
+    bool isElementMemcpy(
+            MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const;
 
     bool isRandomAccess() const;
     void setElement(void* ptr, int idx, Typelib::Value value) const;
-- 
2.43.0


From bf2e18d2f8accc5ca481191932eda2762c9b77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 09/38] fix: account for trailing padding when compiling endian
 swaps

The elements that follow a structure with trailing padding (array elements and
fields of the containing structure) were written at the wrong offset.
---
 typelib/endianness.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..3528f9b 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -114,6 +114,13 @@ namespace Typelib {
             dispatch(it->getType());
             m_output_index = new_index + it->getType().getSize();
         }
+
+        // The operations must cover the trailing padding as well: what follows
+        // is written right after
+        size_t end_index = base_index + type.getSize();
+        if (end_index > m_output_index)
+            skip(end_index - m_output_index);
+        m_output_index = end_index;
         return true;
     }
 
-- 
2.43.0


From a10edcb782c98fd90d93c03c2a252130a4619715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 10/38] fix: do not generate endian swapping code for empty
 arrays

The end of the array block is found by going through its elements, so swapping a
value with an empty array was using an uninitialized iterator.
---
 typelib/endianness.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 3528f9b..912d94e 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -62,6 +62,9 @@ namespace Typelib {
     { throw UnsupportedEndianSwap("pointers"); }
     bool CompileEndianSwapVisitor::visit_ (Array const& type)
     {
+        if (type.getSize() == 0)
+            return true;
+
         if (type.getIndirection().getCategory() == Type::Array)
         {
             size_t current_size = m_compiled.size();
-- 
2.43.0


From 0c9785a1f77bb2b6cd842bd3a87d4eec85e3c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 11/38] fix: report errors when closing an exported file

---
 typelib/exporter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/exporter.cc b/typelib/exporter.cc
index 9b4468b..d7ba3bd 100644
--- a/typelib/exporter.cc
+++ b/typelib/exporter.cc
@@ -28,6 +28,9 @@ void Exporter::save(std::string const &file_name,
     // and then call the internal "save()" function giving it the prepared
     // 'ofstream' object
     save(file, config, registry);
+    // the destructor would silently ignore that the remaining data could not be
+    // written
+    file.close();
 }
 
 void Exporter::save(std::ostream& stream, utilmm::config_set const& config, Registry const& registry)
-- 
2.43.0


From 0d32a47f839db7306162fc7f7cf10ff6b59af6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 12/38] fix: declare to_network before from_network, which
 could not be instantiated

---
 typelib/endian_swap.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/typelib/endian_swap.hh b/typelib/endian_swap.hh
index 8a9f5ce..c9fc59a 100644
--- a/typelib/endian_swap.hh
+++ b/typelib/endian_swap.hh
@@ -87,6 +87,11 @@ namespace Typelib
 #       error "unknown endianness, neither BOOST_ENDIAN_LITTLE_BYTE nor BOOST_ENDIAN_BIG_BYTE are defined"
 #endif
 
+        template<typename S>
+        inline void to_network(const S source, S& dest) { return to_big(source, dest); }
+        template<typename S>
+        inline S to_network(const S source) { return to_big(source); }
+
         /** Converts \c source, which is in network byte order, into native byte order and
          * saves the result into \c dest */
         template<typename S>
@@ -111,11 +116,6 @@ namespace Typelib
          * returns the result */
         template<typename S>
         inline S from_big(const S source) { return to_big(source); }
-
-        template<typename S>
-        inline void to_network(const S source, S& dest) { return to_big(source, dest); }
-        template<typename S>
-        inline S to_network(const S source) { return to_big(source); }
     }
 }
 
-- 
2.43.0


From e7dd9ac967f4eb7b7c4f915f9a7195712c2e0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 13/38] fix: Registry::isSame compares every type with the one
 of the same name

The iterator on the other registry was never moved (the end iterator of this one was), so all
types were compared with the first type of the other registry.
---
 typelib/registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..55f2e6f 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -562,9 +562,11 @@ namespace Typelib
 
         while (left_it != left_end)
         {
+            if (left_it->first != right_it->first)
+                return false;
             if (!left_it->second.type->isSame(*right_it->second.type))
                 return false;
-            left_it++; left_end++;
+            ++left_it; ++right_it;
         }
         return true;
     }
-- 
2.43.0


From c735833fde46c10596f630b3f0c05b396707a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 14/38] fix: a null type is not the same as a real type of the
 same name

Merging a registry that defines a type into one that has a null type of that name
silently kept the null type.
---
 typelib/typemodel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..451c3e6 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -257,7 +257,7 @@ namespace Typelib
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
         virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
-        { return other.getName() == getName(); }
+        { return Type::do_compare(other, equality, stack) && other.getName() == getName(); }
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new NullType(*this); }
-- 
2.43.0


From 66b03dbe8fa31367f00849d39c85cb4806b92a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 15/38] fix: Registry::resize reports unknown type names
 instead of using a null type

---
 typelib/registry.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 55f2e6f..cdfd890 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -580,7 +580,11 @@ namespace Typelib
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-            Type& t = *get_(it->first);
+            Type* type = get_(it->first);
+            if (!type)
+                throw Undefined(it->first);
+
+            Type& t = *type;
             sizes.insert(make_pair(t.getName(),
                         make_pair(t.getSize(), it->second)
                         ));
-- 
2.43.0


From 1f948ba3d8303497a2025007786c45da3e0a5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 16/38] fix: a Registry can not be copied, both copies would
 destroy the types

---
 typelib/registry.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/registry.hh b/typelib/registry.hh
index 79411c8..be99bb3 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -121,6 +121,10 @@ namespace Typelib
          */
         void updateCurrentNameMap();
 
+        // A registry owns its types, it can not be copied
+        Registry(Registry const&);
+        Registry& operator =(Registry const&);
+
     public:
         typedef RegistryIterator Iterator;
 
-- 
2.43.0


From 922c54ba2bf0ba65874ac8d7c9e8b7c6a43c7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 17/38] fix: a type added later does not hide a type of a
 deeper namespace of the default namespace

---
 typelib/registry.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index cdfd890..21533c5 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -352,9 +352,17 @@ namespace Typelib
 
             string cur_name  = getRelativeName(name, cur_space);
 
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
+            // The types of deeper namespaces have priority, see
+            // updateCurrentNameMap()
+            bool hidden = false;
+            string deeper_space = cur_space;
+            for (NameTokenizer::const_iterator it = ns_it; !hidden && it != tokens.end(); ++it)
+            {
+                deeper_space += *it + NamespaceMarkString;
+                hidden = (m_global.find(deeper_space + cur_name) != m_global.end());
+            }
+
+            if (!hidden)
             {
                 m_current.erase(cur_name);
                 m_current.insert(make_pair(cur_name, regtype));
-- 
2.43.0


From 31e0e84cfd17ec42b19a72c0507417af377b1efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 18/38] fix: removing a type makes the types visible again that
 it was hiding

---
 typelib/registry.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 21533c5..0914178 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -664,14 +664,8 @@ namespace Typelib
             else ++global_it;
         }
 
-        NameMap::iterator current_it = m_current.begin(), current_end = m_current.end();
-        while (current_it != current_end)
-        {
-            if (types.count(current_it->second.type))
-                m_current.erase(current_it++);
-            else ++current_it;
-        }
-
+        // Removed types might have been hiding types of another namespace
+        updateCurrentNameMap();
         return types;
     }
 
-- 
2.43.0


From 747dc7f9d9438073be019fc33c8e59db89aeef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 19/38] fix: extracting a minimal registry by name keeps what
 is known about aliases

---
 typelib/registry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 0914178..64559bf 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -207,7 +207,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName());
+                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0


From adb01dbeda3defc543f63880aea51298ce0e1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 20/38] fix: the origin of an alias is not given to its type
 when merging

---
 typelib/registry.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 64559bf..6b08ac3 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -187,7 +187,13 @@ namespace Typelib
 
             string source_id = other_it.getSource();
             if (!source_id.empty() && it.getSource().empty())
-                setSourceID(*it, source_id);
+            {
+                // setSourceID() changes the type, not its aliases
+                if (it.isAlias())
+                    m_global[it.getName()].source_id = source_id;
+                else
+                    setSourceID(*it, source_id);
+            }
         }
     }
 
-- 
2.43.0


From 089bc9de92756025b18f8f79791cca04290bb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 21/38] fix: a failed merge leaves no types behind that refer
 to a destroyed compound

---
 typelib/typemodel.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..c648294 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -387,6 +387,14 @@ namespace Typelib
         }
         catch(...) {
             stack.erase(onStackIter);
+            // Types that refer to the new compound (e.g. pointers to it) might
+            // have been added to the registry already
+            std::set<Type*> dependents = registry.remove(*result);
+            for (std::set<Type*>::iterator it = dependents.begin(); it != dependents.end(); ++it)
+            {
+                if (*it != result.get())
+                    delete *it;
+            }
             throw;
         }
 
-- 
2.43.0


From 0e789135b94d06bd11cd85d52e4fb503be2f6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 22/38] fix: merging an array of a type that is still being
 merged keeps its size

---
 typelib/typemodel.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index c648294..395de30 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -554,7 +554,10 @@ namespace Typelib
         // The pointed-to type has already been inserted in the repository by
         // Indirect::merge, so we don't have to worry.
         Type const& indirect_type = getIndirection().merge(registry, stack);
-        return new Array(indirect_type, m_dimension);
+        Array* result = new Array(indirect_type, m_dimension);
+        // The size of the element is not known yet if it is still being merged
+        result->setSize(getSize());
+        return result;
     }
 
     bool Array::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
-- 
2.43.0


From 3150c63b7df9ad126b2f3e9bdd884cf642df00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 23/38] fix: resizing types of a registry that has recursive
 types terminates

---
 typelib/typemodel.cc | 9 ++-------
 typelib/typemodel.hh | 1 -
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 395de30..7a0c835 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -286,12 +286,6 @@ namespace Typelib
         }
     }
 
-    bool Indirect::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
-    {
-        bool result = Type::do_resize(registry, new_sizes);
-        return registry.get_(getIndirection()).resize(registry, new_sizes) || result;
-    }
-
     Compound::Compound(std::string const& name)
         : Type(name, 0, Type::Compound) {}
 
@@ -562,7 +556,8 @@ namespace Typelib
 
     bool Array::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        if (!Indirect::do_resize(registry, new_sizes))
+        bool resized = Type::do_resize(registry, new_sizes);
+        if (!registry.get_(getIndirection()).resize(registry, new_sizes) && !resized)
             return false;
 
         setSize(getDimension() * getIndirection().getSize());
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 451c3e6..c38263b 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -452,7 +452,6 @@ namespace Typelib
 
     protected:
         virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
-        virtual bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
         /** Overloaded in subclasses to return the name of this type based on
          * the name of the indirection
-- 
2.43.0


From 87dec70b8a78c8615589cc586e4a5650c720c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 24/38] fix: CSV output of recursive types is refused instead
 of recursing forever

---
 typelib/csvoutput.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..5940e17 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -1,6 +1,7 @@
 #include "csvoutput.hh"
 #include "value.hh"
 #include "typevisitor.hh"
+#include <set>
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string/join.hpp>
 
@@ -16,6 +17,8 @@ namespace
     {
         list<string> m_name;
         list<string> m_headers;
+        // The compounds being output, to refuse recursive ones
+        set<Type const*> m_compounds;
 
     protected:
         void output()
@@ -57,9 +60,12 @@ namespace
 
         bool visit_ (Compound const& type)
         {
+            if (!m_compounds.insert(&type).second)
+                throw UnsupportedType(type, "recursive types cannot be represented as CSV");
             m_name.push_back(".");
             TypeVisitor::visit_(type);
             m_name.pop_back();
+            m_compounds.erase(&type);
             return true;
         }
         bool visit_ (Compound const& type, Field const& field)
@@ -86,6 +92,8 @@ namespace
     {
         list<string>  m_output;
         bool m_char_as_numeric;
+        // The pointers being followed, to refuse recursive types
+        set<Type const*> m_pointers;
 
     protected:
         template<typename T>
@@ -100,6 +108,14 @@ namespace
             display("<" + type.getName() + ">");
             return true;
         }
+        bool visit_ (Value const& value, Pointer const& type)
+        {
+            if (!m_pointers.insert(&type).second)
+                throw UnsupportedType(type, "recursive types cannot be represented as CSV");
+            bool result = ValueVisitor::visit_(value, type);
+            m_pointers.erase(&type);
+            return result;
+        }
         bool visit_ (int8_t  & value)
         {
             if (m_char_as_numeric)
-- 
2.43.0


From 4278af969c535056dbe42814fdb84096544508b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 25/38] fix: opaque values have a column in CSV lines as they
 have in headers

---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index 5940e17..f6689f1 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -103,7 +103,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From 06bb8e0d184c6bae188dfb8b2d04792b56baaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 26/38] fix: the layout of a container of a type that contains
 it is refused

---
 typelib/memory_layout.cc | 4 ++++
 typelib/memory_layout.hh | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 1c58c85..228225a 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -580,6 +580,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
     MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
+    array_visitor.containers = containers;
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -588,6 +589,9 @@ bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
     MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
+    container_visitor.containers = containers;
+    if (!container_visitor.containers.insert(&type).second)
+        throw NoLayout(type, "is a container of a type that contains it");
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
diff --git a/typelib/memory_layout.hh b/typelib/memory_layout.hh
index e5f733f..245d404 100644
--- a/typelib/memory_layout.hh
+++ b/typelib/memory_layout.hh
@@ -3,6 +3,7 @@
 
 #include <stdexcept>
 #include <typelib/typevisitor.hh>
+#include <set>
 #include <vector>
 #include <boost/static_assert.hpp>
 
@@ -137,6 +138,8 @@ namespace Typelib
             MemoryLayout& ops;
             bool   accept_pointers;
             bool   accept_opaques;
+            /** The containers whose element layout is being computed */
+            std::set<Type const*> containers;
 
         protected:
             bool visit_ (Numeric const& type);
-- 
2.43.0


From 1ef9be58563de5f1ae068d4799fc21261124c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 27/38] fix: an IDL exporter can be used again

---
 lang/idl/export.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..00876f9 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -483,6 +483,12 @@ void IDLExport::save
     m_opaque_as_any  = config.get<bool>("opaque_as_any", false);
     list<string> selection = config.get< list<string> >("selected");
     m_selected_types = set<string>(selection.begin(), selection.end());
+
+    // Start afresh, whatever a previous export has left behind
+    m_namespace = "/";
+    m_indent.clear();
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
     return Exporter::save(stream, config, type);
 }
 
-- 
2.43.0


From 1781a4013cfe75616c634c754d31cf27ff21aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 28/38] fix: the text in exported type libraries is escaped
 wherever it appears

Field, symbol, key, numeric, null and enum names were written as they are, and
ampersands, quotes and CDATA end markers were not escaped at all.
---
 lang/tlb/export.cc | 52 +++++++++++++++++++++++++++++++++-------------
 lang/tlb/import.cc | 14 ++++++++-----
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..1077f7e 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -48,20 +48,42 @@ namespace
     TlbExportVisitor::TlbExportVisitor(ostream& stream, string const& base_indent, std::string const& source_id)
         : m_stream(stream), m_indent(base_indent), m_source_id(source_id) {}
 
+    /** Replaces the characters that are special in an attribute. Whitespace
+     * other than spaces would be read back as spaces if written as it is
+     */
     std::string xmlEscape(std::string const& source)
+    {
+        string result;
+        for (string::const_iterator it = source.begin(); it != source.end(); ++it)
+        {
+            switch(*it)
+            {
+                case '<': result += "&lt;"; break;
+                case '>': result += "&gt;"; break;
+                case '&': result += "&amp;"; break;
+                case '"': result += "&quot;"; break;
+                case '\t': result += "&#9;"; break;
+                case '\n': result += "&#10;"; break;
+                case '\r': result += "&#13;"; break;
+                default: result += *it;
+            }
+        }
+        return result;
+    }
+
+    /** Returns the CDATA sections for some text. As the end marker cannot be
+     * part of a section, it gets split between two sections
+     */
+    std::string xmlCData(std::string const& source)
     {
         string result = source;
-        size_t pos = result.find_first_of("<>");
+        size_t pos = result.find("]]>");
         while (pos != string::npos)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            result.replace(pos, 3, "]]]]><![CDATA[>");
+            pos = result.find("]]>", pos + 15);
         }
-
-        return result;
+        return "<![CDATA[" + result + "]]>";
     }
 
     std::string TlbExportVisitor::emitMetaData(Type const& type) const
@@ -78,12 +100,12 @@ namespace
             MetaData::Values values = it->second;
             if (values.empty())
             {
-                stream << "<metadata key=\"" << key << "\" />";
+                stream << "<metadata key=\"" << xmlEscape(key) << "\" />";
             }
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << xmlEscape(key) << "\">" << xmlCData(*it_value) << "</metadata>\n";
             }
         }
         return stream.str();
@@ -121,7 +143,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -150,7 +172,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -160,7 +182,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -207,11 +229,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..71f7eaa 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -69,18 +69,22 @@ namespace
             string key = getAttribute<string>(xml, "key");
             metadata.add(key, MetaData::Values());
 
-            // Look at a child CDATA block
+            // Look at the child CDATA blocks. There is more than one if the
+            // text contains the end marker of CDATA blocks
+            bool has_value = false;
+            std::string value;
             xmlNodePtr cdata = xml->children;
             for(; cdata; cdata=cdata->next)
             {
                 if (cdata->type == XML_CDATA_SECTION_NODE)
                 {
-                    std::string value = reinterpret_cast<char const*>(cdata->content);
-                    metadata.add(key, value);
-                    break;
+                    has_value = true;
+                    if (cdata->content)
+                        value += reinterpret_cast<char const*>(cdata->content);
                 }
             }
-
+            if (has_value)
+                metadata.add(key, value);
         }
     }
 
-- 
2.43.0


From 5e4fd805f8bcf9de8c5f8b6540fba6062caaf7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 29/38] fix: pointers and arrays in type libraries can be read
 back

---
 lang/tlb/import.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 71f7eaa..547a07a 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -159,7 +159,10 @@ namespace
 
             it = m_map.find(name);
             if (it != m_map.end())
+            {
+                loadMetaData(it->second, derived->getMetaData());
                 m_map.erase(it);
+            }
             return derived;
         }
     };
@@ -244,6 +247,13 @@ namespace
         factory.insert(node, type);
         return type;
     }
+    /** Pointers and arrays are built from their names by Factory::build. What
+     * is left to this loader are names that are not names of such types
+     */
+    Type const* load_derived(TypeNode const& node, Factory& factory)
+    {
+        throw Parsing::ImportError(node.file, node.name + " is not the name of a pointer or an array");
+    }
     Type const* load_alias(TypeNode const& node, Factory& factory)
     {
         string source = getAttribute<string>(node.xml, "source");
@@ -297,6 +307,8 @@ namespace
         { reinterpret_cast<const xmlChar*>("enum"),      load_enum },
         { reinterpret_cast<const xmlChar*>("compound"),  load_compound },
         { reinterpret_cast<const xmlChar*>("container"),  load_container },
+        { reinterpret_cast<const xmlChar*>("pointer"),   load_derived },
+        { reinterpret_cast<const xmlChar*>("array"),     load_derived },
         { 0, 0 }
     };
 
-- 
2.43.0


From 333c87f4300c43ca2e9798ad04a17fd062dffb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 30/38] fix: types under construction leaked when a type
 library was refused

---
 lang/tlb/import.cc | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 547a07a..f3fbe85 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 // Helpers
 namespace
@@ -104,10 +105,11 @@ namespace
 
         Registry& getRegistry() { return m_registry; }
 
-        void insert(TypeNode const& type, Type* object)
+        Type const* insert(TypeNode const& type, std::unique_ptr<Type> object)
         {
             loadMetaData(type, object->getMetaData());
-            m_registry.add(object, type.file);
+            m_registry.add(object.get(), type.file);
+            return object.release();
         }
 
         void alias (TypeNode const& type, string const& new_name)
@@ -189,22 +191,16 @@ namespace
             , reinterpret_cast<xmlChar const*>(getAttribute<string>(node.xml, "category").c_str()) );
         size_t      size = getAttribute<size_t>(node.xml, "size");
 
-        Type* type = new Numeric(node.name, size, category.type);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::unique_ptr<Type>(new Numeric(node.name, size, category.type)));
     }
     Type const* load_null(TypeNode const& node, Factory& factory)
     {
-        Type* type = new NullType(node.name);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::unique_ptr<Type>(new NullType(node.name)));
     }
     Type const* load_opaque(TypeNode const& node, Factory& factory)
     {
         size_t size = getAttribute<size_t>(node.xml, "size");
-        Type* type = new OpaqueType(node.name, size);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::unique_ptr<Type>(new OpaqueType(node.name, size)));
     }
     Type const* load_container(TypeNode const& node, Factory& factory)
     {
@@ -233,7 +229,7 @@ namespace
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
     {
-        Enum* type = new Enum(node.name);
+        std::unique_ptr<Enum> type(new Enum(node.name));
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
         {
             if (xmlStrcmp(xml->name, reinterpret_cast<const xmlChar*>("value")))
@@ -244,8 +240,7 @@ namespace
             type->add(symbol, value);
         }
 
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::move(type));
     }
     /** Pointers and arrays are built from their names by Factory::build. What
      * is left to this loader are names that are not names of such types
@@ -265,7 +260,7 @@ namespace
 
     Type const* load_compound(TypeNode const& node, Factory& factory)
     {
-        Compound* compound = new Compound(node.name);
+        std::unique_ptr<Compound> compound(new Compound(node.name));
         size_t size = getAttribute<size_t>(node.xml, "size");
 
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
@@ -285,8 +280,7 @@ namespace
 
         compound->normalizeFieldOrder();
         compound->setSize(size);
-        factory.insert(node, compound);
-        return compound;
+        return factory.insert(node, std::move(compound));
     }
 }
 
-- 
2.43.0


From 151a105e4ef8820852f6e144b5729a242578b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 31/38] fix: an invalid numeric category is reported by a
 standard exception when exporting

---
 lang/tlb/export.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 1077f7e..f0b5c42 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -1,5 +1,6 @@
 #include "export.hh"
 #include <iostream>
+#include <stdexcept>
 
 #include <typelib/typevisitor.hh>
 
@@ -164,7 +165,7 @@ namespace
                 case Numeric::Float:
                     return "float";
                 default:
-                    throw "invalid category";
+                    throw std::runtime_error("invalid numeric category");
             }
         }
     }
-- 
2.43.0


From bca8187188943c174b7d670151381dc70bad58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 32/38] fix: register value_endian_swap_b with the parameters
 it is called with

It took a second parameter that define_method(..., 0) never passes.
---
 bindings/ruby/ext/value.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..82065f0 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -533,7 +533,7 @@ VALUE value_endian_swap(VALUE self)
  * @see endian_swap
  */
 static
-VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
+VALUE value_endian_swap_b(VALUE self)
 {
     Value& value = rb2cxx::object<Value>(self);
     endian_swap(value);
-- 
2.43.0


From e0bfd3a690f15af8ac458da4b5f5762a084cb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 33/38] fix: check the argument count before reading the
 arguments in the Ruby bindings

---
 bindings/ruby/ext/registry.cc          | 7 ++++---
 bindings/ruby/ext/specialized_types.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..8e17fd6 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -158,11 +158,12 @@ VALUE registry_do_get(VALUE self, VALUE name)
 static
 VALUE registry_do_build(int argc, VALUE* argv, VALUE self)
 {
-    VALUE name = argv[0];
-    int size = 0;
     if (argc == 0 || argc > 2)
         rb_raise(rb_eArgError, "expected one or two arguments, got %i", argc);
-    else if (argc == 2)
+
+    VALUE name = argv[0];
+    int size = 0;
+    if (argc == 2)
         size = NUM2INT(argv[1]);
 
     Registry& registry = rb2cxx::object<Registry>(self);
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..695cdb4 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -235,6 +235,9 @@ static Value array_element(VALUE rbarray, VALUE rbindex)
  */
 static VALUE array_get(int argc, VALUE* argv, VALUE self)
 {
+    if (argc != 1 && argc != 2)
+        rb_raise(rb_eArgError, "invalid argument count (%i for 1 or 2)", argc);
+
     Value& value            = rb2cxx::object<Value>(self);
     Array const& array      = static_cast<Array const&>(value.getType());
     if (array.getDimension() == 0)
@@ -253,7 +256,7 @@ static VALUE array_get(int argc, VALUE* argv, VALUE self)
         Value v = Value(data + array_type.getSize() * index, array_type);
         return cxx2rb::value_wrap( v, registry, self );
     }
-    else if (argc == 2)
+    else
     {
         VALUE ret = rb_ary_new();
         size_t size = NUM2INT(argv[1]);
@@ -270,8 +273,6 @@ static VALUE array_get(int argc, VALUE* argv, VALUE self)
 
         return ret;
     }
-    else
-        rb_raise(rb_eArgError, "invalid argument count (%i for 1 or 2)", argc);
 }
 
 /* call-seq:
-- 
2.43.0


From 9b217b4e70f4ab08cc135b412aa855060587c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 34/38] fix: convert unsigned values and sizes to and from Ruby
 with their own width

---
 bindings/ruby/ext/convert.cc           | 4 ++--
 bindings/ruby/ext/memory.cc            | 2 +-
 bindings/ruby/ext/registry.cc          | 2 +-
 bindings/ruby/ext/specialized_types.cc | 2 +-
 bindings/ruby/ext/value.cc             | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..487dc6e 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -356,7 +356,7 @@ string_to_memory_ptr(VALUE self)
 static VALUE
 memory_zone_table_size(VALUE self)
 {
-    return INT2NUM(MemoryTable->num_entries);
+    return ULONG2NUM(MemoryTable->num_entries);
 }
 
 void typelib_ruby::Typelib_init_memory()
diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 8e17fd6..e5ac7d5 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -509,7 +509,7 @@ static VALUE registry_clear_aliases(VALUE self)
 static VALUE registry_size(VALUE self)
 {
     Registry& registry = rb2cxx::object<Registry>(self);
-    return INT2NUM(registry.size());
+    return ULONG2NUM(registry.size());
 }
 
 /*
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 695cdb4..f2e81a7 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -445,7 +445,7 @@ static VALUE container_length(VALUE self)
     Value value = rb2cxx::object<Value>(self);
     Container const& type(dynamic_cast<Container const&>(value.getType()));
 
-    return INT2NUM(type.getElementCount(value.getData()));
+    return ULONG2NUM(type.getElementCount(value.getData()));
 }
 
 /*
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 82065f0..0a61fb8 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -594,7 +594,7 @@ static
 VALUE value_marshalling_size(VALUE self)
 {
     Value& value = rb2cxx::object<Value>(self);
-    try { return INT2NUM(Typelib::getDumpSize(value)); }
+    try { return ULONG2NUM(Typelib::getDumpSize(value)); }
     catch(Typelib::NoLayout const&)
     { return Qnil; }
 }
-- 
2.43.0


From 3e84a6292ff66cc99f94c867941a12acf72590c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 35/38] fix: check the index of container elements taken from
 Ruby

---
 bindings/ruby/ext/specialized_types.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index f2e81a7..e33be3a 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -493,6 +493,15 @@ static VALUE container_do_push(VALUE self, VALUE obj)
     return self;
 }
 
+static int container_index(Container const& container_t, void* data, VALUE rbindex)
+{
+    int index = NUM2INT(rbindex);
+    size_t size = container_t.getElementCount(data);
+    if (index < 0 || static_cast<size_t>(index) >= size)
+        rb_raise(rb_eIndexError, "Out of bounds: %i (the container has %lu elements)", index, static_cast<unsigned long>(size));
+    return index;
+}
+
 static VALUE container_do_set(VALUE self, VALUE index, VALUE obj)
 {
     Value container_v = rb2cxx::object<Value>(self);
@@ -500,7 +509,7 @@ static VALUE container_do_set(VALUE self, VALUE index, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.setElement(container_v.getData(), NUM2INT(index), element_v);
+    container_t.setElement(container_v.getData(), container_index(container_t, container_v.getData(), index), element_v);
     return self;
 }
 
@@ -510,7 +519,7 @@ static VALUE container_do_get(VALUE self, VALUE index, VALUE raw)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
     VALUE registry = value_get_registry(self);
 
-    Value v = container_t.getElement(container_v.getData(), NUM2INT(index));
+    Value v = container_t.getElement(container_v.getData(), container_index(container_t, container_v.getData(), index));
     if (RTEST(raw))
         return cxx2rb::value_wrap(v, registry, self);
     else return typelib_to_ruby(v, registry, self);
-- 
2.43.0


From 9fbed10a65d829c523bda39f44c1e44162832dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 36/38] fix: refuse to write a string through a pointer or into
 an empty array

---
 bindings/ruby/ext/strings.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..72371f2 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -64,9 +64,11 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     char * buffer;
     string::size_type buffer_size;
     string_buffer_get(value, buffer, buffer_size);
+    if (buffer_size == string::npos)
+        rb_raise(rb_eTypeError, "Ruby strings can only be converted to char arrays");
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
-    if ((buffer_size - 1) < from_length)
+    if (buffer_size <= from_length)
         rb_raise(rb_eArgError, "array to small: %lu, while %lu was needed", buffer_size, from_length + 1);
 
     strncpy(buffer, StringValueCStr(from), buffer_size);
-- 
2.43.0


From 0d5549b87a9fcfdc7b3994b3fcdccd9489ad8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 37/38] fix: do not compare the memory of values of different
 types

---
 bindings/ruby/ext/value.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 0a61fb8..e27e33b 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -607,8 +607,10 @@ VALUE value_memory_eql_p(VALUE rbself, VALUE rbwith)
     if (self.getData() == with.getData())
         return Qtrue;
 
-    // Type#== checks for type equality before calling memory_equal?
     Type const& type = self.getType();
+    if (type != with.getType())
+        return Qfalse;
+
     return memcmp(self.getData(), with.getData(), type.getSize()) == 0 ? Qtrue : Qfalse;
 }
 
-- 
2.43.0


From 9037ed4631903e46fa064f80326c42b665468fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:42 +0000
Subject: [PATCH 38/38] fix: merged registries keep which aliases are exported

Adding an alias also adds the names it gives to arrays, pointers and vectors,
as not persistent. When the merged registry has an alias of that name, it was
then taken to be there already, and lost its persistent flag and source.
---
 typelib/registry.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 6b08ac3..4517bbd 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -159,9 +159,17 @@ namespace Typelib
             {
                 // we are sure the concrete type we are pointing to is
                 // already in the target registry
-                alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
+                add(it.getName(), get_(it->getName()), it.isPersistent(), it.getSource());
             }
         }
+
+        // Extend the aliases to the derived types only now, as the names that
+        // this generates must not replace aliases of the merged registry
+        for (Iterator it = registry.begin(); it != registry.end(); ++it)
+        {
+            if (it.isAlias())
+                alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
+        }
         copySourceIDs(registry);
         mergeMetaData(registry);
     }
@@ -213,7 +221,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
+                    result->add(it.getName(), result->get_(it->getName()), it.isPersistent(), it.getSource());
             }
         }
 
@@ -253,7 +261,7 @@ namespace Typelib
             }
             else
             {
-                result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
+                result->add(it.getName(), result->get_(it->getName()), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0

