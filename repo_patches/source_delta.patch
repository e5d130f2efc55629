From 7427196b49e05b136234f2f040ee98ad84400b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 01/55] fix: read datetime64/timedelta64 scalars as signed
 64-bit integers

---
 src/python/content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index dc4da47..5da59d3 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -84,11 +84,11 @@ box(const std::shared_ptr<ak::Content>& content) {
                    reinterpret_cast<double*>(raw->data())));
         case ak::util::dtype::datetime64:
           return py::module::import("numpy").attr("datetime64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         case ak::util::dtype::timedelta64:
           return py::module::import("numpy").attr("timedelta64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         default:
           if (raw->ptr_lib() == ak::kernel::lib::cuda) {
-- 
2.43.0


From 52fbef3a6b30fb739c78886d93d4f01169bee268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:24 +0000
Subject: [PATCH 02/55] fix: to_list of multidimensional datetime64/timedelta64
 arrays returns nested lists

---
 src/awkward/operations/convert.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c1f2913..0901052 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -969,13 +969,14 @@ def to_list(array):
 
     elif isinstance(array, ak.layout.NumpyArray):
         if array.format.upper().startswith("M"):
+
+            def items(x):
+                return list(x) if x.ndim == 1 else [items(y) for y in x]
+
             return (
-                [
-                    x
-                    for x in ak.nplike.of(array)
-                    .asarray(array.view_int64)
-                    .view(array.format)
-                ]
+                items(
+                    ak.nplike.of(array).asarray(array.view_int64).view(array.format)
+                )
                 # FIXME: .tolist() returns
                 # [[1567416600000000000], [1568367000000000000], [1569096000000000000]]
                 # instead of [numpy.datetime64('2019-09-02T09:30:00'), numpy.datetime64('2019-09-13T09:30:00'), numpy.datetime64('2019-09-21T20:00:00')]
-- 
2.43.0


From d6e7ff3fa65316d2aa2057e4a5fde429fc237e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:36 +0000
Subject: [PATCH 03/55] fix: bounds-check ArrayBuilder tuple indexes at the
 tuple level they address

TupleBuilder::index compared the index with the outer tuple's size before
forwarding it to an active inner tuple, so ak.from_iter([((1, 2),)]) raised.
A negative index was accepted and then used to address contents_.
---
 src/libawkward/builder/TupleBuilder.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a6dd45e..ca20f98 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -340,7 +340,11 @@ namespace awkward {
         std::string("called 'index' without 'begin_tuple' at the same level before it")
         + FILENAME(__LINE__));
     }
-    else if (index >= (int64_t)contents_.size()) {
+    else if (nextindex_ != -1  &&
+             contents_[(size_t)nextindex_].get()->active()) {
+      contents_[(size_t)nextindex_].get()->index(index);
+    }
+    else if (index < 0  ||  index >= (int64_t)contents_.size()) {
       throw std::invalid_argument(
         std::string("'index' ")
         + std::to_string(index)
@@ -348,12 +352,8 @@ namespace awkward {
         + std::to_string(contents_.size())
         + FILENAME(__LINE__));
     }
-    else if (nextindex_ == -1  ||
-             !contents_[(size_t)nextindex_].get()->active()) {
-      nextindex_ = index;
-    }
     else {
-      contents_[(size_t)nextindex_].get()->index(index);
+      nextindex_ = index;
     }
     return shared_from_this();
   }
-- 
2.43.0


From c998808855ea85156f2f07880bb4ddbdb0e774bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:36 +0000
Subject: [PATCH 04/55] fix: carrying a masked array of records keeps it valid

ByteMaskedArray::carry and UnmaskedArray::carry passed allow_lazy on to their
contents, so a stepped or fancy slice of masked records had an IndexedArray64
directly inside of the option-type node, which validityerror reports.
---
 src/libawkward/array/ByteMaskedArray.cpp | 2 +-
 src/libawkward/array/UnmaskedArray.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 2624678..6a08d6c 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -781,7 +781,7 @@ namespace awkward {
     return std::make_shared<ByteMaskedArray>(identities,
                                              parameters_,
                                              nextmask,
-                                             content_.get()->carry(carry, allow_lazy),
+                                             content_.get()->carry(carry, false),
                                              valid_when_);
   }
 
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index d1ef89b..709e3b8 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -651,7 +651,7 @@ namespace awkward {
     }
     return std::make_shared<UnmaskedArray>(identities,
                                            parameters_,
-                                           content_.get()->carry(carry, allow_lazy));
+                                           content_.get()->carry(carry, false));
   }
 
   int64_t
-- 
2.43.0


From 0fe295351f6024119dbb9b23dbf3b46892b81fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:12 +0000
Subject: [PATCH 05/55] fix: slice items after the first apply below it when
 they pass through records

RecordArray::getitem_next applied each slice item to its contents separately,
so that every item after a range or an array acted on the same dimension
again: array[:, :, 0] differed from array.x[:, :, 0] for records in lists.
All of the items are now passed down to the contents together; field
selections among them apply to the record first. Zero-field records keep
their length.
---
 src/libawkward/array/RecordArray.cpp | 40 +++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 571f0d4..8c65895 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1680,23 +1680,43 @@ namespace awkward {
       return Content::getitem_next(*missing, tail, advanced);
     }
     else {
-      SliceItemPtr nexthead = tail.head();
-      Slice nexttail = tail.tail();
-      Slice emptytail;
-      emptytail.become_sealed();
+      // field selections apply to this record, before positional items
+      // descend into its contents
+      std::vector<SliceItemPtr> items = tail.items();
+      for (size_t i = 0;  i < items.size();  i++) {
+        if (dynamic_cast<SliceField*>(items[i].get()) != nullptr  ||
+            dynamic_cast<SliceFields*>(items[i].get()) != nullptr) {
+          SliceItemPtr nexthead = items[i];
+          items.erase(items.begin() + (int64_t)i);
+          items.insert(items.begin(), head);
+          return getitem_next(nexthead, Slice(items, true), advanced);
+        }
+      }
 
       ContentPtrVec contents;
       for (auto content : contents_) {
-        contents.push_back(content.get()->getitem_next(head,
-                                                       emptytail,
-                                                       advanced));
+        contents.push_back(content.get()->getitem_next(head, tail, advanced));
+      }
+      bool preserves_type = head.get()->preserves_type(advanced);
+      for (auto item : items) {
+        preserves_type = preserves_type  &&  item.get()->preserves_type(advanced);
       }
       util::Parameters parameters;
-      if (head.get()->preserves_type(advanced)) {
+      if (preserves_type) {
         parameters = parameters_;
       }
-      RecordArray out(Identities::none(), parameters, contents, recordlookup_);
-      return out.getitem_next(nexthead, nexttail, advanced);
+      if (contents.empty()) {
+        return std::make_shared<RecordArray>(Identities::none(),
+                                             parameters,
+                                             contents,
+                                             recordlookup_,
+                                             length(),
+                                             caches_);
+      }
+      return std::make_shared<RecordArray>(Identities::none(),
+                                           parameters,
+                                           contents,
+                                           recordlookup_);
     }
   }
 
-- 
2.43.0


From 51ff1c040c12c2f1c87cb454231111c260c020cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:23 +0000
Subject: [PATCH 06/55] fix: several index arrays in one slice stay aligned
 with the data they index

Three or more index arrays after a range, or two of them on data with
missing values, unions, or records whose contents are longer than the
record, read the wrong element of the index array or beyond its end.
---
 src/libawkward/array/ByteMaskedArray.cpp | 16 +++++++++++++++-
 src/libawkward/array/IndexedArray.cpp    | 16 +++++++++++++++-
 src/libawkward/array/ListArray.cpp       |  2 +-
 src/libawkward/array/ListOffsetArray.cpp |  2 +-
 src/libawkward/array/RecordArray.cpp     |  4 +++-
 src/libawkward/array/RegularArray.cpp    |  2 +-
 src/libawkward/array/UnionArray.cpp      | 16 +++++++++++++++-
 7 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 6a08d6c..c2f9b73 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -719,9 +719,23 @@ namespace awkward {
       Index64 nextcarry = pair.first;
       Index64 outindex = pair.second;
 
+      // drop the missing values from advanced, as they are from content
+      bool has_advanced = (advanced.length() == outindex.length()  &&
+                           !advanced.is_empty_advanced());
+      Index64 nextadvanced = has_advanced ? Index64(nextcarry.length()) : advanced;
+      if (has_advanced) {
+        int64_t k = 0;
+        for (int64_t i = 0;  i < outindex.length();  i++) {
+          if (outindex.getitem_at_nowrap(i) >= 0) {
+            nextadvanced.setitem_at_nowrap(k, advanced.getitem_at_nowrap(i));
+            k++;
+          }
+        }
+      }
+
       ContentPtr next = content_.get()->carry(nextcarry, true);
 
-      ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+      ContentPtr out = next.get()->getitem_next(head, tail, nextadvanced);
       IndexedOptionArray64 out2(identities_, parameters_, outindex, out);
       return out2.simplify_optiontype();
     }
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index b8594a9..77813a0 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1389,8 +1389,22 @@ namespace awkward {
         Index64 nextcarry = pair.first;
         IndexOf<T> outindex = pair.second;
 
+        // drop the missing values from advanced, as they are from content
+        bool has_advanced = (advanced.length() == outindex.length()  &&
+                           !advanced.is_empty_advanced());
+        Index64 nextadvanced = has_advanced ? Index64(nextcarry.length()) : advanced;
+        if (has_advanced) {
+          int64_t k = 0;
+          for (int64_t i = 0;  i < outindex.length();  i++) {
+            if (outindex.getitem_at_nowrap(i) >= 0) {
+              nextadvanced.setitem_at_nowrap(k, advanced.getitem_at_nowrap(i));
+              k++;
+            }
+          }
+        }
+
         ContentPtr next = content_.get()->carry(nextcarry, true);
-        ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+        ContentPtr out = next.get()->getitem_next(head, tail, nextadvanced);
         IndexedArrayOf<T, ISOPTION> out2(identities_,
                                          parameters_,
                                          outindex,
diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 76ad0fd..8933ab8 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1761,7 +1761,7 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 79216dc..b33d3eb 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2252,7 +2252,7 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 8c65895..7241c84 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1695,7 +1695,9 @@ namespace awkward {
 
       ContentPtrVec contents;
       for (auto content : contents_) {
-        contents.push_back(content.get()->getitem_next(head, tail, advanced));
+        // contents may be longer than the record, but advanced is not
+        ContentPtr trimmed = content.get()->getitem_range_nowrap(0, length());
+        contents.push_back(trimmed.get()->getitem_next(head, tail, advanced));
       }
       bool preserves_type = head.get()->preserves_type(advanced);
       for (auto item : items) {
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 79080b0..2968ab1 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1515,7 +1515,7 @@ namespace awkward {
       util::handle_error(err, classname(), identities_.get());
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 4f64688..09faa1a 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -1240,8 +1240,22 @@ namespace awkward {
       ContentPtrVec outcontents;
       for (int64_t i = 0;  i < numcontents();  i++) {
         ContentPtr projection = project(i);
+        // advanced is projected in the same way as the content
+        bool has_advanced = (advanced.length() == tags_.length()  &&
+                             !advanced.is_empty_advanced());
+        Index64 nextadvanced = has_advanced ? Index64(projection.get()->length())
+                                        : advanced;
+        if (has_advanced) {
+          int64_t k = 0;
+          for (int64_t j = 0;  j < tags_.length();  j++) {
+            if ((int64_t)tags_.getitem_at_nowrap(j) == i) {
+              nextadvanced.setitem_at_nowrap(k, advanced.getitem_at_nowrap(j));
+              k++;
+            }
+          }
+        }
         outcontents.push_back(
-          projection.get()->getitem_next(head, tail, advanced));
+          projection.get()->getitem_next(head, tail, nextadvanced));
       }
       IndexOf<I> outindex = regular_index(tags_);
       UnionArrayOf<T, I> out(identities_,
-- 
2.43.0


From 6d9330f25f131b0872dfaf351ed91a379306b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:21 +0000
Subject: [PATCH 07/55] fix: slicing a strided NumPy buffer inside of another
 node copies it contiguously first

NumpyArray::getitem_next with a carry addresses elements as if the buffer were
contiguous; only the outermost NumpyArray was made so.
---
 src/libawkward/array/NumpyArray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..a175de9 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1433,6 +1433,9 @@ namespace awkward {
   NumpyArray::getitem_next(const SliceItemPtr& head,
                            const Slice& tail,
                            const Index64& advanced) const {
+    if (!iscontiguous()) {
+      return contiguous().getitem_next(head, tail, advanced);
+    }
     Index64 carry(shape_[0]);
     struct Error err = kernel::carry_arange<int64_t>(
       kernel::lib::cpu,   // DERIVE
-- 
2.43.0


From a9e1635e53f0b4970b1b47d74906ecd59c1cf326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:46 +0000
Subject: [PATCH 08/55] fix: slicing lists by an index array of zero size keeps
 the number of lists

---
 include/awkward/Content.h                |  6 ++++--
 src/libawkward/Content.cpp               | 23 ++++++++---------------
 src/libawkward/array/ListArray.cpp       |  3 ++-
 src/libawkward/array/ListOffsetArray.cpp |  3 ++-
 src/libawkward/array/RegularArray.cpp    |  3 ++-
 5 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/awkward/Content.h b/include/awkward/Content.h
index 0786514..68c9420 100644
--- a/include/awkward/Content.h
+++ b/include/awkward/Content.h
@@ -1395,10 +1395,12 @@ namespace awkward {
     /// RegularArray nodes to satisfy a given `shape`.
     ///
     /// The `shape` is intended to match a
-    /// {@link SliceArrayOf#shape SliceArray::shape}.
+    /// {@link SliceArrayOf#shape SliceArray::shape}. The `outerlength` is the
+    /// number of lists that this slice item applies to.
     const ContentPtr
       getitem_next_array_wrap(const ContentPtr& outcontent,
-                              const std::vector<int64_t>& shape) const;
+                              const std::vector<int64_t>& shape,
+                              int64_t outerlength) const;
 
     /// @brief Internal function to convert #parameters into a string fragment
     /// for #tostring.
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 39a6e99..b3acd04 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1870,21 +1870,14 @@ namespace awkward {
 
   const ContentPtr
   Content::getitem_next_array_wrap(const ContentPtr& outcontent,
-                                   const std::vector<int64_t>& shape) const {
-    int64_t length = 0;
-    if (shape.size() >= 2) {
-      length = (int64_t)shape[shape.size() - 2];
-    }
-    ContentPtr out =
-      std::make_shared<RegularArray>(Identities::none(),
-                                     util::Parameters(),
-                                     outcontent,
-                                     (int64_t)shape[shape.size() - 1],
-                                     length);
-    for (int64_t i = (int64_t)shape.size() - 2;  i >= 0;  i--) {
-      int64_t length = 0;
-      if (i > 0) {
-        length = (int64_t)shape[(size_t)(i - 1)];
+                                   const std::vector<int64_t>& shape,
+                                   int64_t outerlength) const {
+    ContentPtr out = outcontent;
+    for (int64_t i = (int64_t)shape.size() - 1;  i >= 0;  i--) {
+      // only used by dimensions of size zero
+      int64_t length = outerlength;
+      for (int64_t j = 0;  j < i;  j++) {
+        length *= (int64_t)shape[(size_t)j];
       }
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 8933ab8..2520547 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1737,7 +1737,8 @@ namespace awkward {
           nextcontent.get()->getitem_next(nexthead,
                                           nexttail,
                                           nextadvanced),
-          array.shape());
+          array.shape(),
+          lenstarts);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index b33d3eb..8aa2242 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2228,7 +2228,8 @@ namespace awkward {
                  nextcontent.get()->getitem_next(nexthead,
                                                  nexttail,
                                                  nextadvanced),
-                 array.shape());
+                 array.shape(),
+                 lenstarts);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 2968ab1..650549a 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1485,7 +1485,8 @@ namespace awkward {
                  nextcontent.get()->getitem_next(nexthead,
                                                  nexttail,
                                                  nextadvanced),
-                 array.shape());
+                 array.shape(),
+                 len);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
-- 
2.43.0


From 5f536aadca2e8c485638ef5848cf2e9a2c661995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:47 +0000
Subject: [PATCH 09/55] fix: flatten slice index arrays of three or more
 dimensions without overlap

---
 src/cpu-kernels/awkward_slicearray_ravel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_slicearray_ravel.cpp b/src/cpu-kernels/awkward_slicearray_ravel.cpp
index b4196e8..8b7e783 100644
--- a/src/cpu-kernels/awkward_slicearray_ravel.cpp
+++ b/src/cpu-kernels/awkward_slicearray_ravel.cpp
@@ -17,10 +17,14 @@ ERROR awkward_slicearray_ravel(
     }
   }
   else {
+    T step = 1;
+    for (int64_t j = 1;  j < ndim;  j++) {
+      step *= shape[j];
+    }
     for (T i = 0;  i < shape[0];  i++) {
       ERROR err =
         awkward_slicearray_ravel<T>(
-          &toptr[i*shape[1]],
+          &toptr[i*step],
           &fromptr[i*strides[0]],
           ndim - 1,
           &shape[1],
-- 
2.43.0


From 42de19dff1946faeb924e529e693404ab1d106a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:22 +0000
Subject: [PATCH 10/55] fix: newaxis above records adds a dimension whether or
 not they are lazily carried

---
 src/libawkward/array/RecordArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 7241c84..09b3f07 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1679,6 +1679,10 @@ namespace awkward {
              dynamic_cast<SliceMissing64*>(head.get())) {
       return Content::getitem_next(*missing, tail, advanced);
     }
+    else if (const SliceNewAxis* newaxis =
+             dynamic_cast<SliceNewAxis*>(head.get())) {
+      return Content::getitem_next(*newaxis, tail, advanced);
+    }
     else {
       // field selections apply to this record, before positional items
       // descend into its contents
-- 
2.43.0


From 1d9f6b39deff1e326f65d81a330e6ae31d8839fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 11/55] fix: positional slice items before a field name are
 checked against all fields

---
 src/libawkward/array/RecordArray.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 09b3f07..97d4f8d 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1691,6 +1691,14 @@ namespace awkward {
         if (dynamic_cast<SliceField*>(items[i].get()) != nullptr  ||
             dynamic_cast<SliceFields*>(items[i].get()) != nullptr) {
           SliceItemPtr nexthead = items[i];
+          // but positional items before the field must be valid for all fields
+          Slice before(std::vector<SliceItemPtr>(items.begin(),
+                                                 items.begin() + (int64_t)i),
+                       true);
+          for (auto content : contents_) {
+            ContentPtr trimmed = content.get()->getitem_range_nowrap(0, length());
+            trimmed.get()->getitem_next(head, before, advanced);
+          }
           items.erase(items.begin() + (int64_t)i);
           items.insert(items.begin(), head);
           return getitem_next(nexthead, Slice(items, true), advanced);
-- 
2.43.0


From 63d9bfc8cd61ea8fed068e5e4d90f90348b4d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:21 +0000
Subject: [PATCH 12/55] fix: nested slices with strided, masked or mismatched
 buffers select the right items

Strided index and mask buffers were read as if contiguous (out of bounds for
masks), jagged slices of multidimensional NumpyArrays were undefined, and
missing lists in the array or in the slice misaligned the lists after them.
---
 src/libawkward/Content.cpp          | 23 ++++++++--
 src/libawkward/array/ListArray.cpp  | 70 ++++++++++++++++++++++++++++-
 src/libawkward/array/NumpyArray.cpp | 55 ++++++++++++-----------
 3 files changed, 118 insertions(+), 30 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index b3acd04..d0a0250 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1588,7 +1588,7 @@ namespace awkward {
     }
     const Index64 index = missing.index();
     ContentPtr content = that.get()->getitem_at_nowrap(0);
-    if (content.get()->length() < index.length()) {
+    if (content.get()->length() != index.length()) {
       throw std::invalid_argument(
         std::string("cannot fit masked jagged slice with length ") +
         std::to_string(index.length()) + std::string(" into ") +
@@ -1607,9 +1607,24 @@ namespace awkward {
       stops.data(),
       index.length());
     util::handle_error(err, that.get()->classname(), nullptr);
-    ContentPtr tmp = content.get()->getitem_next_jagged(
-        starts, stops, jagged->content(), tail);
-    IndexedOptionArray64 out(Identities::none(), util::Parameters(), outputmask, tmp);
+
+    // only lists with a corresponding item in the slice
+    Index64 nextcarry(jagged->length());
+    Index64 outindex(index.length());
+    struct Error err2 = kernel::IndexedArray_getitem_nextcarry_outindex_64<int64_t>(
+      kernel::lib::cpu,   // DERIVE
+      nextcarry.data(),
+      outindex.data(),
+      outputmask.data(),
+      index.length(),
+      index.length());
+    util::handle_error(err2, that.get()->classname(), nullptr);
+    ContentPtr tmp = content.get()->carry(nextcarry, true).get()->getitem_next_jagged(
+        util::make_starts(jagged->offsets()),
+        util::make_stops(jagged->offsets()),
+        jagged->content(),
+        tail);
+    IndexedOptionArray64 out(Identities::none(), util::Parameters(), outindex, tmp);
     return std::make_shared<RegularArray>(
         Identities::none(),
         util::Parameters(),
diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 2520547..061f7d1 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -30,6 +30,46 @@
 #include "awkward/common.h"
 
 namespace awkward {
+  /// @brief Replaces the `slicestarts` and `slicestops` of a jagged slice that
+  /// skip over items (because the array being sliced has missing lists there)
+  /// or do not start at zero by an equivalent slice without gaps.
+  ///
+  /// Returns `false` if there are no gaps.
+  static bool
+  jagged_slice_without_gaps(const Index64& slicestarts,
+                            const Index64& slicestops,
+                            const SliceItem& slicecontent,
+                            int64_t slicelength,
+                            Index64& nextoffsets,
+                            SliceItemPtr& nextcontent) {
+    int64_t total = 0;
+    bool gaps = false;
+    for (int64_t i = 0;  i < slicestarts.length();  i++) {
+      int64_t start = slicestarts.getitem_at_nowrap(i);
+      int64_t stop = slicestops.getitem_at_nowrap(i);
+      if (start != total) {
+        gaps = true;
+      }
+      nextoffsets.setitem_at_nowrap(i, total);
+      total += stop - start;
+    }
+    nextoffsets.setitem_at_nowrap(slicestarts.length(), total);
+    if (!gaps  &&  total == slicelength) {
+      return false;
+    }
+    Index64 nextcarry(total);
+    int64_t k = 0;
+    for (int64_t i = 0;  i < slicestarts.length();  i++) {
+      int64_t stop = slicestops.getitem_at_nowrap(i);
+      for (int64_t j = slicestarts.getitem_at_nowrap(i);  j < stop;  j++) {
+        nextcarry.setitem_at_nowrap(k, j);
+        k++;
+      }
+    }
+    nextcontent = slicecontent.carry(nextcarry);
+    return true;
+  }
+
   ////////// ListForm
 
   ListForm::ListForm(bool has_identities,
@@ -1927,7 +1967,21 @@ namespace awkward {
 
     ContentPtr out;
     if (dynamic_cast<SliceJagged64*>(slicecontent.content().get())) {
-      ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
+      // the carry is relative to the slice, which must have the same list
+      // lengths as this array
+      Index64 outoffsets(slicestarts.length() + 1);
+      struct Error err3 = kernel::ListArray_getitem_jagged_descend_64<T>(
+        kernel::lib::cpu,   // DERIVE
+        outoffsets.data(),
+        slicestarts.data(),
+        slicestops.data(),
+        slicestarts.length(),
+        starts_.data(),
+        stops_.data());
+      util::handle_error(err3, classname(), identities_.get());
+      ContentPtr compact = toListOffsetArray64(true);
+      ContentPtr nextcontent =
+        dynamic_cast<ListOffsetArray64*>(compact.get())->content().get()->carry(nextcarry, true);
       ContentPtr next = std::make_shared<ListOffsetArray64>(Identities::none(),
                                                             util::Parameters(),
                                                             smalloffsets,
@@ -1978,6 +2032,20 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
 
+    Index64 nextoffsets(slicestarts.length() + 1);
+    SliceItemPtr nextslice(nullptr);
+    if (jagged_slice_without_gaps(slicestarts,
+                                  slicestops,
+                                  slicecontent,
+                                  slicecontent.length(),
+                                  nextoffsets,
+                                  nextslice)) {
+      return Content::getitem_next_jagged(util::make_starts(nextoffsets),
+                                          util::make_stops(nextoffsets),
+                                          nextslice,
+                                          tail);
+    }
+
     Index64 outoffsets(slicestarts.length() + 1);
     struct Error err = kernel::ListArray_getitem_jagged_descend_64<T>(
       kernel::lib::cpu,   // DERIVE
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index a175de9..27755fd 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -3013,13 +3013,17 @@ namespace awkward {
                     "same slice item") + FILENAME(__LINE__));
     }
     if (dtype_ == util::dtype::int64) {
-        int64_t* raw = reinterpret_cast<int64_t*>(ptr_.get());
-        std::shared_ptr<int64_t> ptr(ptr_, raw);
+        // jagged slices use the index without its strides
+        NumpyArray contiguous_self = contiguous();
+        int64_t* raw = reinterpret_cast<int64_t*>(contiguous_self.ptr().get());
+        std::shared_ptr<int64_t> ptr(contiguous_self.ptr(), raw);
         std::vector<int64_t> shape({ (int64_t)shape_[0] });
-        std::vector<int64_t> strides({ (int64_t)strides_[0] /
-                                       (int64_t)itemsize_ });
+        std::vector<int64_t> strides({ 1 });
         return std::make_shared<SliceArray64>(
-          Index64(ptr, (int64_t)byteoffset_ / (int64_t)itemsize_, length(), ptr_lib_),
+          Index64(ptr,
+                  (int64_t)contiguous_self.byteoffset() / (int64_t)itemsize_,
+                  length(),
+                  ptr_lib_),
           shape,
           strides,
           false);
@@ -3100,22 +3104,23 @@ namespace awkward {
     }
 
     else if (dtype_ == util::dtype::boolean) {
+      NumpyArray contiguous_self = contiguous();
       int64_t numtrue;
       struct Error err1 = kernel::NumpyArray_getitem_boolean_numtrue(
         kernel::lib::cpu,   // DERIVE
         &numtrue,
-        reinterpret_cast<int8_t*>(data()),
+        reinterpret_cast<int8_t*>(contiguous_self.data()),
         (int64_t)shape_[0],
-        (int64_t)strides_[0]);
+        1);
       util::handle_error(err1, classname(), identities_.get());
 
       Index64 index(numtrue);
       struct Error err2 = kernel::NumpyArray_getitem_boolean_nonzero_64(
         kernel::lib::cpu,   // DERIVE
         index.data(),
-        reinterpret_cast<int8_t*>(data()),
+        reinterpret_cast<int8_t*>(contiguous_self.data()),
         (int64_t)shape_[0],
-        (int64_t)strides_[0]);
+        1);
       util::handle_error(err2, classname(), identities_.get());
 
       std::vector<int64_t> shape({ numtrue });
@@ -3886,10 +3891,10 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
     else {
-      throw std::runtime_error(
-        std::string("undefined operation: NumpyArray::getitem_next_jagged("
-                    "array) for ndim == ") + std::to_string(ndim())
-        + FILENAME(__LINE__));
+      return toRegularArray().get()->getitem_next_jagged(slicestarts,
+                                                         slicestops,
+                                                         slicecontent,
+                                                         tail);
     }
   }
 
@@ -3904,10 +3909,10 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
     else {
-      throw std::runtime_error(
-        std::string("undefined operation: NumpyArray::getitem_next_jagged("
-                    "missing) for ndim == ") + std::to_string(ndim())
-        + FILENAME(__LINE__));
+      return toRegularArray().get()->getitem_next_jagged(slicestarts,
+                                                         slicestops,
+                                                         slicecontent,
+                                                         tail);
     }
   }
 
@@ -3922,10 +3927,10 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
     else {
-      throw std::runtime_error(
-        std::string("undefined operation: NumpyArray::getitem_next_jagged("
-                    "jagged) for ndim == ") + std::to_string(ndim())
-        + FILENAME(__LINE__));
+      return toRegularArray().get()->getitem_next_jagged(slicestarts,
+                                                         slicestops,
+                                                         slicecontent,
+                                                         tail);
     }
   }
 
@@ -3940,10 +3945,10 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
     else {
-      throw std::runtime_error(
-        std::string("undefined operation: NumpyArray::getitem_next_jagged("
-                    "varnewaxis) for ndim == ") + std::to_string(ndim())
-        + FILENAME(__LINE__));
+      return toRegularArray().get()->getitem_next_jagged(slicestarts,
+                                                         slicestops,
+                                                         slicecontent,
+                                                         tail);
     }
   }
 
-- 
2.43.0


From 0866bcf2bf7ee21765c247acb917753c93ebe01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:34 +0000
Subject: [PATCH 13/55] fix: flattening completely ignores unreachable record
 contents and yields one-dimensional arrays

---
 src/awkward/_util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 76bde2e..0ebc555 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -498,14 +498,15 @@ def completely_flatten(array):
     elif isinstance(array, recordtypes):
         out = []
         for i in range(array.numfields):
-            out.extend(completely_flatten(array.field(i)))
+            out.extend(completely_flatten(array.field(i)[: len(array)]))
         return tuple(out)
 
     elif isinstance(array, ak.layout.NumpyArray):
         if array.format.upper().startswith("M"):
-            return (ak.nplike.of(array).asarray(array.view_int64).view(array.format),)
+            out = ak.nplike.of(array).asarray(array.view_int64).view(array.format)
         else:
-            return (ak.nplike.of(array).asarray(array),)
+            out = ak.nplike.of(array).asarray(array)
+        return (out.reshape(-1),)
 
     else:
         raise RuntimeError(
-- 
2.43.0


From 3562c6578c9b61cc121425bcd10369ce758456b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:34 +0000
Subject: [PATCH 14/55] fix: reducers place results, positions and fixed-size
 dimensions correctly

Reducing along an axis above jagged lists mixed up output lists that nothing
is combined into; argmin/argmax on sliced lists or with missing lists returned
wrong positions; fixed-size lists inside of jagged lists were refused.
---
 src/libawkward/array/IndexedArray.cpp    |  2 +-
 src/libawkward/array/ListOffsetArray.cpp | 69 ++++++++++++------------
 src/libawkward/array/RegularArray.cpp    | 40 +++++++++++++-
 3 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 77813a0..d036373 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2212,7 +2212,7 @@ namespace awkward {
     util::handle_error(err2, classname(), identities_.get());
 
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    bool make_shifts = (isoption()  &&
+    bool make_shifts = ((isoption()  ||  shifts.length() != 0)  &&
                         reducer.returns_positions()  &&
                         !branchdepth.first  && negaxis == branchdepth.second);
 
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 8aa2242..8f9c20b 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1409,45 +1409,46 @@ namespace awkward {
         nextlen);
       util::handle_error(err4, classname(), identities_.get());
 
-      Index64 gaps(outlength);
-      struct Error err5 = kernel::ListOffsetArray_reduce_nonlocal_findgaps_64(
-        kernel::lib::cpu,   // DERIVE
-        gaps.data(),
-        parents.data(),
-        parents.length());
-      util::handle_error(err5, classname(), identities_.get());
-
+      // output list i is at i*maxcount in the next content, and it is as long
+      // as the longest of the lists that are combined into it
       Index64 outstarts(outlength);
       Index64 outstops(outlength);
-      struct Error err6 = kernel::ListOffsetArray_reduce_nonlocal_outstartsstops_64(
-        kernel::lib::cpu,   // DERIVE
-        outstarts.data(),
-        outstops.data(),
-        distincts.data(),
-        maxcount * outlength,
-        gaps.data(),
-        outlength);
-      util::handle_error(err6, classname(), identities_.get());
+      for (int64_t i = 0;  i < outlength;  i++) {
+        int64_t stop = i*maxcount;
+        while (stop < (i + 1)*maxcount  &&
+               distincts.getitem_at_nowrap(stop) != -1) {
+          stop++;
+        }
+        outstarts.setitem_at_nowrap(i, i*maxcount);
+        outstops.setitem_at_nowrap(i, stop);
+      }
 
-      bool make_shifts = reducer.returns_positions();
+      bool make_shifts = (reducer.returns_positions()  &&
+                          branchdepth.second == 2);
 
       Index64 nextshifts(make_shifts ? nextlen : 0);
       if (make_shifts) {
-        Index64 nummissing(maxcount);
-        Index64 missing(offsets_.getitem_at(offsets_.length() - 1));
-        struct Error err7 = kernel::ListOffsetArray_reduce_nonlocal_nextshifts_64(
-          kernel::lib::cpu,   // DERIVE
-          nummissing.data(),
-          missing.data(),
-          nextshifts.data(),
-          offsets_.data(),
-          offsets_.length() - 1,
-          starts.data(),
-          parents.data(),
-          maxcount,
-          nextlen,
-          nextcarry.data());
-        util::handle_error(err7, classname(), identities_.get());
+        // the position of each list among those it is combined with (shifts
+        // account for missing lists that have already been removed)
+        Index64 position(offsets_.getitem_at(offsets_.length() - 1));
+        for (int64_t i = 0;  i < offsets_.length() - 1;  i++) {
+          int64_t where = i - starts.getitem_at_nowrap(parents.getitem_at_nowrap(i));
+          if (shifts.length() != 0) {
+            where += shifts.getitem_at_nowrap(i);
+          }
+          for (int64_t j = offsets_.getitem_at_nowrap(i);
+               j < offsets_.getitem_at_nowrap(i + 1);
+               j++) {
+            position.setitem_at_nowrap(j, where);
+          }
+        }
+        for (int64_t k = 0;  k < nextlen;  k++) {
+          int64_t rank = k - nextstarts.getitem_at_nowrap(
+                               nextparents.getitem_at_nowrap(k));
+          nextshifts.setitem_at_nowrap(
+            k,
+            position.getitem_at_nowrap(nextcarry.getitem_at_nowrap(k)) - rank);
+        }
       }
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
@@ -1501,7 +1502,7 @@ namespace awkward {
                                                                 globalstop);
       ContentPtr outcontent = trimmed.get()->reduce_next(reducer,
                                                          negaxis,
-                                                         util::make_starts(offsets_),
+                                                         util::make_starts(compact_offsets64(true)),
                                                          shifts,
                                                          nextparents,
                                                          offsets_.length() - 1,
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 650549a..6cc524d 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1112,11 +1112,47 @@ namespace awkward {
       }
 
       if (convert_shallow) {
+        // output lists that nothing was combined into are empty (and they are
+        // not reachable from above), so they can be anything of the right size
+        ContentPtr compact(nullptr);
         if (ListOffsetArray64* raw1 = dynamic_cast<ListOffsetArray64*>(out.get())) {
-          out = raw1->toRegularArray();
+          compact = raw1->toListOffsetArray64(true);
         }
         else if (ListArray64* raw1 = dynamic_cast<ListArray64*>(out.get())) {
-          out = raw1->toRegularArray();
+          compact = raw1->toListOffsetArray64(true);
+        }
+        if (compact.get() != nullptr) {
+          ListOffsetArray64* raw1 = dynamic_cast<ListOffsetArray64*>(compact.get());
+          Index64 offsets = raw1->offsets();
+          int64_t size = 0;
+          bool gaps = false;
+          for (int64_t i = 0;  i < raw1->length();  i++) {
+            int64_t count = (offsets.getitem_at_nowrap(i + 1) -
+                             offsets.getitem_at_nowrap(i));
+            size = std::max(size, count);
+            gaps = gaps  ||  count == 0;
+          }
+          if (gaps  &&  size != 0) {
+            Index64 nextcarry(raw1->length()*size);
+            for (int64_t i = 0;  i < raw1->length();  i++) {
+              int64_t start = offsets.getitem_at_nowrap(i);
+              if (offsets.getitem_at_nowrap(i + 1) == start) {
+                start = 0;
+              }
+              for (int64_t j = 0;  j < size;  j++) {
+                nextcarry.setitem_at_nowrap(i*size + j, start + j);
+              }
+            }
+            out = std::make_shared<RegularArray>(
+              Identities::none(),
+              raw1->parameters(),
+              raw1->content().get()->carry(nextcarry, false),
+              size,
+              raw1->length());
+          }
+          else {
+            out = raw1->toRegularArray();
+          }
         }
       }
     }
-- 
2.43.0


From 4940151dba9754d09979d6cfa0eae191446c26a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:58 +0000
Subject: [PATCH 15/55] fix: sorting keeps lists, missing values and equal
 strings in their places

Sliced lists were refused or misplaced, missing lists above the sorted axis and
missing values in one dimension were lost, an empty array of strings became a
string, and descending order of strings used an invalid comparison.
---
 ...wkward_ListOffsetArray_argsort_strings.cpp |  16 +-
 src/libawkward/array/IndexedArray.cpp         | 210 +++++++-----------
 src/libawkward/array/ListOffsetArray.cpp      |  33 ++-
 3 files changed, 112 insertions(+), 147 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
index 932270c..5a40a8e 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
@@ -19,24 +19,18 @@ ERROR awkward_ListOffsetArray_argsort_strings_impl(
   const int64_t* stringstops) {
 
   auto sorter =
-        [&stringdata, &stringstarts, &stringstops](int left, int right) -> bool {
+        [&stringdata, &stringstarts, &stringstops](int64_t left, int64_t right) -> bool {
           size_t left_n = stringstops[left] - stringstarts[left];
           size_t right_n = stringstops[right] - stringstarts[right];
           const char* left_str = &stringdata[stringstarts[left]];
           const char* right_str = &stringdata[stringstarts[right]];
-          int cmp = strncmp(left_str, right_str, std::min(left_n, right_n));
-          bool out;
-          if (cmp == 0) {
-            out = left_n < right_n;
-          }
-          else {
-            out = cmp < 0;
-          }
+          int cmp = memcmp(left_str, right_str, std::min(left_n, right_n));
+          // a strict ordering in both directions: equal strings are never before each other
           if (is_ascending) {
-            return out;
+            return cmp == 0 ? left_n < right_n : cmp < 0;
           }
           else {
-            return !out;
+            return cmp == 0 ? left_n > right_n : cmp > 0;
           }
         };
 
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index d036373..e61ff8d 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2392,7 +2392,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2417,19 +2416,40 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
+    if (branchdepth.first  ||  negaxis != branchdepth.second) {
+      // sorting within deeper lists: everything stays in its place here
+      ContentPtr out = next.get()->sort_next(negaxis,
+                                      starts,
+                                      nextparents,
+                                      outlength,
+                                      ascending,
+                                      stable,
+                                      false);
+      IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
+                                            parameters_,
+                                            outindex,
+                                            out);
+      out = tmp.simplify_optiontype();
+      if (keepdims) {
+        out = std::make_shared<RegularArray>(Identities::none(),
+                                             util::Parameters(),
+                                             out,
+                                             index_length,
+                                             1);
+      }
+      return out;
     }
+
+    // missing values (not lists) are moved to the end of their group
+    bool wrap = keepdims  &&  branchdepth.second == 1;
     ContentPtr out = next.get()->sort_next(negaxis,
-                                           starts,
-                                           nextparents,
-                                           outlength,
-                                           ascending,
-                                           stable,
-                                           keepdims);
+                                    starts,
+                                    nextparents,
+                                    outlength,
+                                    ascending,
+                                    stable,
+                                    keepdims  &&  !wrap);
 
     Index64 nextoutindex(parents_length);
     struct Error err3 = kernel::IndexedArray_local_preparenext_64(
@@ -2448,63 +2468,13 @@ namespace awkward {
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (wrap) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
-    }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-        out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("sort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              parameters_,
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("sort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
+                                           index_length,
+                                           1);
     }
-
     return out;
   }
 
@@ -2524,7 +2494,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2549,29 +2518,50 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
+    if (branchdepth.first  ||  negaxis != branchdepth.second) {
+      // sorting within deeper lists: everything stays in its place here
+      ContentPtr out = next.get()->argsort_next(negaxis,
+                                      starts,
+                                      nextparents,
+                                      outlength,
+                                      ascending,
+                                      stable,
+                                      false);
+      IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
+                                            util::Parameters(),
+                                            outindex,
+                                            out);
+      out = tmp.simplify_optiontype();
+      if (keepdims) {
+        out = std::make_shared<RegularArray>(Identities::none(),
+                                             util::Parameters(),
+                                             out,
+                                             index_length,
+                                             1);
+      }
+      return out;
     }
+
+    // missing values (not lists) are moved to the end of their group
+    bool wrap = keepdims  &&  branchdepth.second == 1;
     ContentPtr out = next.get()->argsort_next(negaxis,
-                                              starts,
-                                              nextparents,
-                                              outlength,
-                                              ascending,
-                                              stable,
-                                              keepdims);
+                                    starts,
+                                    nextparents,
+                                    outlength,
+                                    ascending,
+                                    stable,
+                                    keepdims  &&  !wrap);
 
     Index64 nextoutindex(parents_length);
     struct Error err3 = kernel::IndexedArray_local_preparenext_64(
-      kernel::lib::cpu,   // DERIVE
-      nextoutindex.data(),
-      starts.data(),
-      parents.data(),
-      parents_length,
-      nextparents.data(),
-      next_length);
+        kernel::lib::cpu,   // DERIVE
+        nextoutindex.data(),
+        starts.data(),
+        parents.data(),
+        parents_length,
+        nextparents.data(),
+        next_length);
     util::handle_error(err3, classname(), identities_.get());
 
     IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
@@ -2580,63 +2570,13 @@ namespace awkward {
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (wrap) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
-    }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-          out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("argsort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              util::Parameters(),
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("argsort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
+                                           index_length,
+                                           1);
     }
-
     return out;
   }
 
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 8f9c20b..7b19c1d 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1714,9 +1714,26 @@ namespace awkward {
     bool keepdims) const {
 
     if (length() == 0 ) {
+      if (keepdims) {
+        return std::make_shared<RegularArray>(Identities::none(),
+                                              util::Parameters(),
+                                              shallow_copy(),
+                                              0,
+                                              1);
+      }
       return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->sort_next(negaxis,
+                                                 starts,
+                                                 parents,
+                                                 outlength,
+                                                 ascending,
+                                                 stable,
+                                                 keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
@@ -1918,7 +1935,21 @@ namespace awkward {
                                            bool stable,
                                            bool keepdims) const {
     if (length() == 0 ) {
-     return shallow_copy();
+      if (parameter_equals("__array__", "\"string\"")  ||
+          parameter_equals("__array__", "\"bytestring\"")) {
+        return std::make_shared<NumpyArray>(Index64(0));
+      }
+      return shallow_copy();
+    }
+
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->argsort_next(negaxis,
+                                                 starts,
+                                                 parents,
+                                                 outlength,
+                                                 ascending,
+                                                 stable,
+                                                 keepdims);
     }
 
     std::pair<bool, int64_t> branchdepth = branch_depth();
-- 
2.43.0


From 9b02ba256d2e6f1d3c3fa7ae8309ee4c49228412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:46 +0000
Subject: [PATCH 16/55] fix: num of sliced nested lists, run_lengths with empty
 edges, empty multidimensional arrays

ak.num with axis >= 2 counted the wrong lists if offsets did not start at zero,
ak.run_lengths failed or split runs if the first or last lists were empty, and
NumpyArrays with a zero dimension came back with another length.
---
 src/awkward/operations/structure.py      | 4 +++-
 src/libawkward/array/ListOffsetArray.cpp | 5 ++++-
 src/libawkward/array/NumpyArray.cpp      | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 195463b..272946d 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -349,7 +349,9 @@ def run_lengths(array, highlevel=True, behavior=None):
             if isinstance(diffs, ak.highlevel.Array):
                 diffs = nplike.asarray(diffs)
             if offsets is not None:
-                diffs[offsets[1:-1] - 1] = True
+                # runs end where lists end (empty lists may be at the edges)
+                inside = offsets[(offsets > 0) & (offsets < len(data))]
+                diffs[inside - 1] = True
             positions = nplike.nonzero(diffs)[0]
             full_positions = nplike.empty(len(positions) + 2, np.int64)
             full_positions[0] = 0
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 7b19c1d..8d65609 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -966,8 +966,11 @@ namespace awkward {
       return std::make_shared<NumpyArray>(tonum);
     }
     else {
-      ContentPtr next = content_.get()->num(posaxis, depth + 1);
       Index64 offsets = compact_offsets64(true);
+      int64_t start = (int64_t)offsets_.getitem_at_nowrap(0);
+      int64_t stop = start + offsets.getitem_at_nowrap(offsets.length() - 1);
+      ContentPtr next = content_.get()->getitem_range_nowrap(start, stop)
+                          .get()->num(posaxis, depth + 1);
       return std::make_shared<ListOffsetArray64>(Identities::none(),
                                                  util::Parameters(),
                                                  offsets,
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 27755fd..b6210de 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -494,11 +494,15 @@ namespace awkward {
       contiguous_self.dtype(),
       ptr_lib_);
     for (int64_t i = (int64_t)shape_.size() - 1;  i > 0;  i--) {
+      int64_t zeros_length = 1;
+      for (int64_t j = 0;  j < i;  j++) {
+        zeros_length *= shape_[(size_t)j];
+      }
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
                                            shape_[(size_t)i],
-                                           shape_[(size_t)(i - 1)]);
+                                           zeros_length);
     }
     return out;
   }
-- 
2.43.0


From a08300c19672053d69fb04c77ce70e69492b473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 17/55] fix: combinations of short fixed-size lists and nested
 cartesian products of empty arrays

RegularArray::combinations allocated its work space by the size of the lists
instead of n, writing past its end, and ak.cartesian(axis=0, nested=...) lost
the lists of an empty product, failed on a single array and did not check the
names in 'nested'.
---
 src/awkward/operations/structure.py   | 13 +++++++++----
 src/libawkward/array/RegularArray.cpp |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 272946d..72e2baf 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3207,7 +3207,7 @@ def cartesian(
         if isinstance(new_arrays, dict):
             if nested is True:
                 nested = list(new_arrays.keys())  # last key is ignored below
-            if any(not (isinstance(n, str) and n in new_arrays) for x in nested):
+            if any(not (isinstance(x, str) and x in new_arrays) for x in nested):
                 raise ValueError(
                     "the 'nested' parameter of cartesian must be dict keys "
                     "for a dict of arrays" + ak._util.exception_suffix(__file__)
@@ -3256,9 +3256,14 @@ def cartesian(
         ]
 
         result = ak.layout.RecordArray(outs, recordlookup, parameters=parameters)
-        for i in range(len(new_arrays) - 1, -1, -1):
+        for i in range(len(new_arrays) - 2, -1, -1):
             if i in nested:
-                result = ak.layout.RegularArray(result, len(layouts[i + 1]), 0)
+                zeros_length = 1
+                for x in layouts[: i + 1]:
+                    zeros_length *= len(x)
+                result = ak.layout.RegularArray(
+                    result, len(layouts[i + 1]), zeros_length
+                )
 
     elif is_partitioned:
         sample = None
@@ -3345,7 +3350,7 @@ def cartesian(
         if isinstance(new_arrays, dict):
             if nested is True:
                 nested = list(new_arrays.keys())  # last key is ignored below
-            if any(not (isinstance(n, str) and n in new_arrays) for x in nested):
+            if any(not (isinstance(x, str) and x in new_arrays) for x in nested):
                 raise ValueError(
                     "the 'nested' parameter of cartesian must be dict keys "
                     "for a dict of arrays" + ak._util.exception_suffix(__file__)
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 6cc524d..b7bf205 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1254,10 +1254,10 @@ namespace awkward {
       }
       std::shared_ptr<int64_t> toindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
       std::shared_ptr<int64_t> fromindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
 
       if (size_ != 0) {
         struct Error err = kernel::RegularArray_combinations_64(
-- 
2.43.0


From c5f32c8330372666f32f6ed9dd24babe10847d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 18/55] fix: broadcasting respects fixed sizes, unreachable
 items and the outer dimension

Dimensions of size 0 and 1 were not broadcast together, fixed-size lists with
more items than they need were refused, shallow arrays were not broadcast into
fixed-size lists of variable lists, unreachable items were broadcast (or caused
refusals) and inner NumPy arrays of different depth were broadcast along the
wrong dimension.
---
 src/awkward/_connect/_numpy.py        |  3 ++
 src/awkward/_util.py                  | 61 +++++++++++++--------------
 src/awkward/operations/structure.py   |  4 +-
 src/libawkward/array/RegularArray.cpp |  3 +-
 4 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/src/awkward/_connect/_numpy.py b/src/awkward/_connect/_numpy.py
index 7ac0a3c..ab14d5f 100644
--- a/src/awkward/_connect/_numpy.py
+++ b/src/awkward/_connect/_numpy.py
@@ -111,10 +111,13 @@ def array_ufunc(ufunc, method, inputs, kwargs):
             return layout
         else:
             shape = [len(layout)]
+            length = len(layout)
             node = layout
             while isinstance(node, ak.layout.RegularArray):
                 shape.append(node.size)
+                length *= node.size
                 node = node.content
+            node = node[:length]
             if node.format.upper().startswith("M"):
                 nparray = ak.nplike.of(node).asarray(node.view_int64).view(node.format)
                 nparray = nparray.reshape(tuple(shape) + nparray.shape[1:])
diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 0ebc555..d1e0166 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -567,6 +567,9 @@ def broadcast_and_apply(  # noqa: C901
                 stops = nplike.asarray(x.stops)
                 if not nplike.array_equal(starts[1:], stops[:-1]):
                     return False
+                last = stops[-1] if len(stops) != 0 else 0
+                if last > len(x.content):
+                    return False
                 if offsets is None:
                     offsets = nplike.empty(len(starts) + 1, dtype=starts.dtype)
                     if len(offsets) == 1:
@@ -574,23 +577,14 @@ def broadcast_and_apply(  # noqa: C901
                     else:
                         offsets[:-1] = starts
                         offsets[-1] = stops[-1]
-                elif not nplike.array_equal(offsets[:-1], starts) or (
-                    len(stops) != 0 and offsets[-1] != stops[-1]
+                elif (
+                    not nplike.array_equal(offsets[:-1], starts) or offsets[-1] != last
                 ):
                     return False
-            elif isinstance(x, ak.layout.RegularArray):
-                if x.size == 0:
-                    my_offsets = nplike.empty(0, dtype=np.int64)
-                else:
-                    my_offsets = nplike.arange(0, len(x.content), x.size)
-                if offsets is None:
-                    offsets = my_offsets
-                elif not nplike.array_equal(offsets, my_offsets):
-                    return False
             elif isinstance(x, ak.layout.Content):
                 return False
-        else:
-            return True
+        # items before the first list must not be broadcasted
+        return offsets is None or len(offsets) == 0 or offsets[0] == 0
 
     def apply(inputs, depth, user):
         nplike = ak.nplike.of(*inputs)
@@ -610,7 +604,11 @@ def broadcast_and_apply(  # noqa: C901
             ]
 
         # handle implicit right-broadcasting (i.e. NumPy-like)
-        if right_broadcast and any(isinstance(x, listtypes) for x in inputs):
+        if right_broadcast and any(
+            isinstance(x, listtypes)
+            or (isinstance(x, ak.layout.NumpyArray) and x.ndim > 1)
+            for x in inputs
+        ):
             maxdepth = max(
                 x.purelist_depth for x in inputs if isinstance(x, ak.layout.Content)
             )
@@ -789,28 +787,25 @@ def broadcast_and_apply(  # noqa: C901
                 isinstance(x, ak.layout.RegularArray) or not isinstance(x, listtypes)
                 for x in inputs
             ):
-                maxsize = max(
-                    [x.size for x in inputs if isinstance(x, ak.layout.RegularArray)]
+                regulars = [x for x in inputs if isinstance(x, ak.layout.RegularArray)]
+                length = len(regulars[0])
+                maxsize = max(x.size for x in regulars)
+                if maxsize == 1 and any(x.size == 0 for x in regulars):
+                    maxsize = 0
+                tmpindex = ak.layout.Index64(
+                    nplike.repeat(nplike.arange(length, dtype=np.int64), maxsize)
                 )
-                for x in inputs:
-                    if isinstance(x, ak.layout.RegularArray):
-                        if maxsize > 1 and x.size == 1:
-                            tmpindex = ak.layout.Index64(
-                                nplike.repeat(
-                                    nplike.arange(len(x), dtype=np.int64), maxsize
-                                )
-                            )
                 nextinputs = []
                 for x in inputs:
                     if isinstance(x, ak.layout.RegularArray):
-                        if maxsize > 1 and x.size == 1:
+                        if x.size == maxsize:
+                            nextinputs.append(x.content[: length * maxsize])
+                        elif x.size == 1:
                             nextinputs.append(
                                 ak.layout.IndexedArray64(
-                                    tmpindex, x.content[: len(x) * x.size]
+                                    tmpindex, x.content[:length]
                                 ).project()
                             )
-                        elif x.size == maxsize:
-                            nextinputs.append(x.content[: len(x) * x.size])
                         else:
                             raise ValueError(
                                 "cannot broadcast RegularArray of size "
@@ -819,17 +814,19 @@ def broadcast_and_apply(  # noqa: C901
                                 )
                                 + exception_suffix(__file__)
                             )
+                    # handle implicit left-broadcasting (unlike NumPy)
+                    elif left_broadcast and isinstance(x, ak.layout.Content):
+                        nextinputs.append(
+                            ak.layout.IndexedArray64(tmpindex, x).project()
+                        )
                     else:
                         nextinputs.append(x)
 
-                maxlen = max(
-                    [len(x) for x in nextinputs if isinstance(x, ak.layout.Content)]
-                )
                 outcontent = apply(nextinputs, depth + 1, user)
                 assert isinstance(outcontent, tuple)
 
                 return tuple(
-                    ak.layout.RegularArray(x, maxsize, maxlen) for x in outcontent
+                    ak.layout.RegularArray(x, maxsize, length) for x in outcontent
                 )
 
             elif not all_same_offsets(nplike, inputs):
diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 72e2baf..21eae2d 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1405,7 +1405,9 @@ def broadcast_arrays(*arrays, **kwargs):
         inputs.append(y)
 
     def getfunction(inputs):
-        if all(isinstance(x, ak.layout.NumpyArray) for x in inputs):
+        if all(isinstance(x, ak.layout.NumpyArray) for x in inputs) and all(
+            x.shape[1:] == inputs[0].shape[1:] for x in inputs
+        ):
             return lambda: tuple(inputs)
         else:
             return None
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index b7bf205..3fc4691 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -334,7 +334,8 @@ namespace awkward {
       return std::make_shared<ListOffsetArray64>(identities,
                                                  parameters_,
                                                  offsets,
-                                                 content_);
+                                                 content_.get()->getitem_range_nowrap(
+                                                   0, len*size_));
     }
   }
 
-- 
2.43.0


From cb5725ecfcb22e428011790ff2631d84997b6486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:36 +0000
Subject: [PATCH 19/55] fix: missing-value functions agree for every encoding;
 merging of records, virtual and indexed arrays

---
 src/awkward/operations/structure.py    | 15 ++++++++++++---
 src/libawkward/Content.cpp             |  9 ++++++---
 src/libawkward/array/IndexedArray.cpp  | 14 +++++++-------
 src/libawkward/array/RecordArray.cpp   |  8 +++++++-
 src/libawkward/array/UnionArray.cpp    | 20 +++++++++++++-------
 src/libawkward/array/UnmaskedArray.cpp |  4 ++--
 6 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 21eae2d..94d12b2 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -151,7 +151,7 @@ def mask(array, mask, valid_when=True, highlevel=True, behavior=None):
 
     def getfunction(inputs):
         layoutarray, layoutmask = inputs
-        if isinstance(layoutmask, ak.layout.NumpyArray):
+        if isinstance(layoutmask, ak.layout.NumpyArray) and layoutmask.ndim == 1:
             m = ak.nplike.of(layoutmask).asarray(layoutmask)
             if not issubclass(m.dtype.type, (bool, np.bool_)):
                 raise ValueError(
@@ -1758,7 +1758,10 @@ def where(condition, *args, **kwargs):
 
         def getfunction(inputs):
             akcondition, left, right = inputs
-            if isinstance(akcondition, ak.layout.NumpyArray):
+            if (
+                isinstance(akcondition, ak.layout.NumpyArray)
+                and akcondition.ndim == 1
+            ):
                 npcondition = nplike.asarray(akcondition)
                 tags = ak.layout.Index8((npcondition == 0).view(np.int8))
                 index = ak.layout.Index64(nplike.arange(len(tags), dtype=np.int64))
@@ -2828,7 +2831,12 @@ def is_none(array, axis=0, highlevel=True, behavior=None):
     layout = ak.operations.convert.to_layout(array)
 
     out = ak._util.recursively_apply(
-        layout, getfunction, pass_depth=True, pass_user=True, user=axis
+        layout,
+        getfunction,
+        pass_depth=True,
+        pass_user=True,
+        user=axis,
+        numpy_to_regular=True,
     )
 
     if highlevel:
@@ -2935,6 +2943,7 @@ def firsts(array, axis=1, highlevel=True, behavior=None):
                 + ak._util.exception_suffix(__file__)
             )
         toslice = (slice(None, None, None),) * posaxis + (0,)
+        layout = from_regular(layout, axis=posaxis, highlevel=False)
         out = ak.mask(layout, ak.num(layout, axis=posaxis) > 0, highlevel=False)[
             toslice
         ]
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index d0a0250..1f724ee 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,6 +941,9 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
           dynamic_cast<IndexedArrayU32*>(other.get())  ||
           dynamic_cast<IndexedArray64*>(other.get())  ||
@@ -954,9 +957,6 @@ namespace awkward {
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -964,6 +964,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index e61ff8d..ce6bd3a 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1771,7 +1771,7 @@ namespace awkward {
         theirlength);
       util::handle_error(err2, classname(), identities_.get());
     }
-    if (std::is_same<T, int64_t>::value) {
+    else if (std::is_same<T, int64_t>::value) {
       struct Error err2 = kernel::IndexedArray_fill<int64_t, int64_t>(
         kernel::lib::cpu,   // DERIVE
         index.data(),
@@ -1813,14 +1813,14 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<UnionArray8_32*>(other.get())  ||
           dynamic_cast<UnionArray8_U32*>(other.get())  ||
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -1828,6 +1828,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
@@ -1872,7 +1875,6 @@ namespace awkward {
       }
 
       if (IndexedArray32* raw = dynamic_cast<IndexedArray32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(
@@ -1887,7 +1889,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArrayU32* raw = dynamic_cast<IndexedArrayU32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         IndexU32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<uint32_t, int64_t>(
@@ -1902,7 +1903,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArray64* raw = dynamic_cast<IndexedArray64*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index64 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int64_t, int64_t>(
diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 97d4f8d..bff3cb0 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1274,7 +1274,7 @@ namespace awkward {
     std::vector<ContentPtrVec> for_each_field;
     for (auto field : contents_) {
       ContentPtr trimmed = field.get()->getitem_range_nowrap(0, length_);
-      for_each_field.push_back(ContentPtrVec({ field }));
+      for_each_field.push_back(ContentPtrVec({ trimmed }));
     }
 
     if (istuple()) {
@@ -1361,6 +1361,12 @@ namespace awkward {
 
     ContentPtrVec nextcontents;
     int64_t minlength = -1;
+    if (for_each_field.empty()) {
+      minlength = 0;
+      for (auto array : head) {
+        minlength += array.get()->length();
+      }
+    }
     for (auto forfield : for_each_field) {
       ContentPtrVec tail_forfield(forfield.begin() + 1, forfield.end());
       ContentPtr merged = forfield[0].get()->mergemany(tail_forfield);
diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 09faa1a..ed6d301 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -536,8 +536,14 @@ namespace awkward {
     ContentPtrVec contents;
 
     for (size_t i = 0;  i < contents_.size();  i++) {
+      ContentPtr content = contents_[i];
+      if (merge) {
+        if (VirtualArray* raw = dynamic_cast<VirtualArray*>(content.get())) {
+          content = raw->array();
+        }
+      }
       if (UnionArray8_32* rawcontent =
-          dynamic_cast<UnionArray8_32*>(contents_[i].get())) {
+          dynamic_cast<UnionArray8_32*>(content.get())) {
         Index8 innertags = rawcontent->tags();
         Index32 innerindex = rawcontent->index();
         ContentPtrVec innercontents = rawcontent->contents();
@@ -584,7 +590,7 @@ namespace awkward {
         }
       }
       else if (UnionArray8_U32* rawcontent =
-               dynamic_cast<UnionArray8_U32*>(contents_[i].get())) {
+               dynamic_cast<UnionArray8_U32*>(content.get())) {
         Index8 innertags = rawcontent->tags();
         IndexU32 innerindex = rawcontent->index();
         ContentPtrVec innercontents = rawcontent->contents();
@@ -631,7 +637,7 @@ namespace awkward {
         }
       }
       else if (UnionArray8_64* rawcontent =
-               dynamic_cast<UnionArray8_64*>(contents_[i].get())) {
+               dynamic_cast<UnionArray8_64*>(content.get())) {
         Index8 innertags = rawcontent->tags();
         Index64 innerindex = rawcontent->index();
         ContentPtrVec innercontents = rawcontent->contents();
@@ -680,7 +686,7 @@ namespace awkward {
       else {
         bool unmerged = true;
         for (size_t k = 0;  k < contents.size();  k++) {
-          if (contents[k].get()->referentially_equal(contents_[i])) {
+          if (contents[k].get()->referentially_equal(content)) {
             struct Error err = kernel::UnionArray_simplify_one_to8_64<T, I>(
               kernel::lib::cpu,   // DERIVE
               tags.data(),
@@ -695,7 +701,7 @@ namespace awkward {
             unmerged = false;
             break;
           }
-          else if (merge  &&  contents[k].get()->mergeable(contents_[i], mergebool)) {
+          else if (merge  &&  contents[k].get()->mergeable(content, mergebool)) {
             struct Error err = kernel::UnionArray_simplify_one_to8_64<T, I>(
               kernel::lib::cpu,   // DERIVE
               tags.data(),
@@ -707,7 +713,7 @@ namespace awkward {
               len,
               contents[k].get()->length());
             util::handle_error(err, classname(), identities_.get());
-            contents[k] = contents[k].get()->merge(contents_[i]);
+            contents[k] = contents[k].get()->merge(content);
             unmerged = false;
             break;
           }
@@ -724,7 +730,7 @@ namespace awkward {
             len,
             0);
           util::handle_error(err, classname(), identities_.get());
-          contents.push_back(contents_[i]);
+          contents.push_back(content);
         }
       }
     }
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index 709e3b8..cf2d875 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -857,7 +857,7 @@ namespace awkward {
 
   const ContentPtr
   UnmaskedArray::fillna(const ContentPtr& value) const {
-    return content_.get()->fillna(value);
+    return content_;
   }
 
   const ContentPtr
@@ -883,7 +883,7 @@ namespace awkward {
                                int64_t depth) const {
     int64_t posaxis = axis_wrap_if_negative(axis);
     if (posaxis == depth) {
-      return rpad_axis0(target, false);
+      return rpad_axis0(target, true);
     }
     else if (posaxis == depth + 1) {
       return content_.get()->rpad_and_clip(target, posaxis, depth);
-- 
2.43.0


From 8043c113b693257cc86ba97e1ba6d19569ca61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 20/55] fix: unflatten keeps empty lists before the first item
 of a deeper axis

---
 src/awkward/operations/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 94d12b2..f6c5268 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2119,6 +2119,8 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                 positions = (
                     nplike.searchsorted(inneroffsets, outeroffsets, side="right") - 1
                 )
+                # empty lists before the first item belong to the first list
+                positions[:1] = 0
                 if not nplike.array_equal(inneroffsets[positions], outeroffsets):
                     raise ValueError(
                         "structure imposed by 'counts' does not fit in the array or partition "
-- 
2.43.0


From 163d2a4aca9b7f14fb0a2a2bd113ec895bd2e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:09 +0000
Subject: [PATCH 21/55] fix: concatenation of fixed-size lists with unused
 items, complex numbers, missing lists and partitions of different types

---
 src/awkward/operations/structure.py  | 45 +++++++++++++++--
 src/libawkward/array/ListArray.cpp   |  2 +-
 src/libawkward/array/NumpyArray.cpp  | 72 ++++++++++++++++++----------
 src/libawkward/array/RecordArray.cpp |  4 +-
 4 files changed, 90 insertions(+), 33 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f6c5268..1d142ea 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1520,7 +1520,24 @@ def concatenate(
                     )
                     offsets.append(offsets[-1] + 1)
 
-            out = ak.partition.IrregularlyPartitionedArray(partitions, offsets[1:])
+            def compatible(x, y):
+                if isinstance(x, ak._util.virtualtypes) or isinstance(y, ak._util.virtualtypes):
+                    return True  # lazy arrays are not touched here
+                return x.form.type({}) == y.form.type({}) or x.mergeable(
+                    y, mergebool=mergebool
+                )
+
+            if all(compatible(partitions[0], x) for x in partitions[1:]):
+                out = ak.partition.IrregularlyPartitionedArray(partitions, offsets[1:])
+            else:
+                # all partitions must have the same type
+                out = concatenate(
+                    partitions,
+                    axis=axis,
+                    merge=merge,
+                    mergebool=mergebool,
+                    highlevel=False,
+                )
 
         else:
             for content in contents:
@@ -1565,13 +1582,18 @@ def concatenate(
             else ak.operations.convert.to_layout([x])
             for x in contents
         ]
+        # being mergeable is not transitive: arrays of unknown type are mergeable
+        # with anything, so compare with one array of each type in the batch
         batch = [contents[0]]
+        types = {str(ak.operations.describe.type(contents[0])): contents[0]}
         for x in contents[1:]:
-            if batch[-1].mergeable(x, mergebool=mergebool):
+            if all(y.mergeable(x, mergebool=mergebool) for y in types.values()):
                 batch.append(x)
+                types[str(ak.operations.describe.type(x))] = x
             else:
                 collapsed = batch[0].mergemany(batch[1:])
                 batch = [collapsed.merge_as_union(x)]
+                types = {str(ak.operations.describe.type(batch[0])): batch[0]}
 
         out = batch[0].mergemany(batch[1:])
         if isinstance(out, ak._util.uniontypes):
@@ -1585,10 +1607,23 @@ def concatenate(
             ):
                 nextinputs = []
                 for x in inputs:
-                    if isinstance(x, ak._util.optiontypes) and isinstance(
-                        x.content, ak._util.listtypes
+                    content = x
+                    if isinstance(x, ak._util.optiontypes):
+                        content = x.content
+                        while isinstance(content, ak._util.virtualtypes):
+                            content = content.array
+                    if content is not x and (
+                        isinstance(content, ak._util.listtypes)
+                        or (
+                            isinstance(content, ak.layout.NumpyArray)
+                            and content.ndim > 1
+                        )
                     ):
-                        nextinputs.append(fill_none(x, [], highlevel=False))
+                        # missing lists count as empty lists
+                        offsets, flattened = x.offsets_and_flatten(1)
+                        nextinputs.append(
+                            ak.layout.ListOffsetArray64(offsets, flattened)
+                        )
                     else:
                         nextinputs.append(x)
                 inputs = nextinputs
diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 061f7d1..20a3c2f 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1306,7 +1306,7 @@ namespace awkward {
           raw->length(),
           contentlength_so_far);
         util::handle_error(err, raw->classname(), raw->identities().get());
-        contentlength_so_far += raw->content().get()->length();
+        contentlength_so_far += rawregular->content().get()->length();
         length_so_far += raw->length();
       }
       else if (EmptyArray* raw = dynamic_cast<EmptyArray*>(array.get())) {
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index b6210de..330a503 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2688,7 +2688,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<float>>(
@@ -2696,7 +2697,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<float>>(
@@ -2704,7 +2706,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<float>>(
@@ -2712,7 +2715,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<float>>(
@@ -2720,7 +2724,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<float>>(
@@ -2728,7 +2733,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<float>>(
@@ -2736,7 +2742,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<float>>(
@@ -2744,7 +2751,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<float>>(
@@ -2752,7 +2760,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2765,7 +2774,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<float>>(
@@ -2773,7 +2783,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<float>>(
@@ -2782,7 +2793,7 @@ namespace awkward {
             flatlength_so_far,
             reinterpret_cast<std::complex<float>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
+          flatlength = flatlength * 2;
           break;
         default:
           throw std::runtime_error(
@@ -2802,7 +2813,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<double>>(
@@ -2810,7 +2822,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<double>>(
@@ -2818,7 +2831,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<double>>(
@@ -2826,7 +2840,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<double>>(
@@ -2834,7 +2849,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<double>>(
@@ -2842,7 +2858,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<double>>(
@@ -2850,7 +2867,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<double>>(
@@ -2858,7 +2876,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<double>>(
@@ -2866,7 +2885,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2879,7 +2899,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<double>>(
@@ -2887,7 +2908,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<double>>(
@@ -2896,7 +2918,7 @@ namespace awkward {
             flatlength_so_far,
             reinterpret_cast<std::complex<float>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
+          flatlength = flatlength * 2;
           break;
         case util::dtype::complex128:
           err = kernel::NumpyArray_fill<std::complex<double>, std::complex<double>>(
@@ -2905,7 +2927,7 @@ namespace awkward {
             flatlength_so_far,
             reinterpret_cast<std::complex<double>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
+          flatlength = flatlength * 2;
           break;
         default:
           throw std::runtime_error(
diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index bff3cb0..97e2c55 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -176,7 +176,7 @@ namespace awkward {
   const std::pair<int64_t, int64_t>
   RecordForm::minmax_depth() const {
     if (contents_.empty()) {
-      return std::pair<int64_t, int64_t>(0, 0);
+      return std::pair<int64_t, int64_t>(1, 1);
     }
     int64_t min = kMaxInt64;
     int64_t max = 0;
@@ -967,7 +967,7 @@ namespace awkward {
   const std::pair<int64_t, int64_t>
   RecordArray::minmax_depth() const {
     if (contents_.empty()) {
-      return std::pair<int64_t, int64_t>(0, 0);
+      return std::pair<int64_t, int64_t>(1, 1);
     }
     int64_t min = kMaxInt64;
     int64_t max = 0;
-- 
2.43.0


From ee04694e5fccec5ac7c6935e7e4bda463cfe0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:57 +0000
Subject: [PATCH 22/55] fix: ArrayBuilder keeps bytes and strings apart,
 complex numbers in bounds and records after clearing

---
 src/libawkward/builder/Complex128Builder.cpp |  6 ++++--
 src/libawkward/builder/IndexedBuilder.cpp    | 16 ++++++++--------
 src/libawkward/builder/RecordBuilder.cpp     |  9 +++------
 src/libawkward/builder/StringBuilder.cpp     |  5 +++++
 src/libawkward/builder/TupleBuilder.cpp      |  4 +++-
 5 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 6615ed1..aec7998 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -24,7 +24,7 @@ namespace awkward {
       GrowableBuffer<std::complex<double>>::empty(options, old.reserved());
     int64_t* oldraw = old.ptr().get();
     std::complex<double>* newraw = buffer.ptr().get();
-    for (int64_t i = 0;  i < 2*old.length();  i++) {
+    for (int64_t i = 0;  i < old.length();  i++) {
       newraw[i] = {static_cast<double>(oldraw[i]), 0};
     }
     buffer.set_length(old.length());
@@ -190,7 +190,9 @@ namespace awkward {
 
   const BuilderPtr
   Complex128Builder::endrecord() {
-    return shared_from_this();
+    throw std::invalid_argument(
+      std::string("called 'end_record' without 'begin_record' at the same level before it")
+      + FILENAME(__LINE__));
   }
 
   const BuilderPtr
diff --git a/src/libawkward/builder/IndexedBuilder.cpp b/src/libawkward/builder/IndexedBuilder.cpp
index 7e783a2..ba51f2f 100644
--- a/src/libawkward/builder/IndexedBuilder.cpp
+++ b/src/libawkward/builder/IndexedBuilder.cpp
@@ -297,14 +297,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -345,14 +345,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -393,14 +393,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -443,7 +443,7 @@ namespace awkward {
     Index64 index(index_.ptr(), 0, index_.length(), kernel::lib::cpu);
     return std::make_shared<IndexedOptionArray64>(
       Identities::none(),
-      array_.get()->content().get()->parameters(),
+      array_.get()->parameters(),
       index,
       array_.get()->content());
   }
@@ -484,7 +484,7 @@ namespace awkward {
     Index64 index(index_.ptr(), 0, index_.length(), kernel::lib::cpu);
     return std::make_shared<IndexedOptionArray64>(
       Identities::none(),
-      array_.get()->content().get()->parameters(),
+      array_.get()->parameters(),
       index,
       array_.get()->content());
   }
diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 60036f0..8065aad 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -83,15 +83,12 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    keys_.clear();
-    pointers_.clear();
-    name_ = "";
-    nameptr_ = nullptr;
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
     nexttotry_ = 0;
-    keys_size_ = 0;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/StringBuilder.cpp b/src/libawkward/builder/StringBuilder.cpp
index 3810f04..5bd0216 100644
--- a/src/libawkward/builder/StringBuilder.cpp
+++ b/src/libawkward/builder/StringBuilder.cpp
@@ -152,6 +152,11 @@ namespace awkward {
 
   const BuilderPtr
   StringBuilder::string(const char* x, int64_t length, const char* encoding) {
+    if (encoding_ != encoding) {
+      BuilderPtr out = UnionBuilder::fromsingle(options_, shared_from_this());
+      out.get()->string(x, length, encoding);
+      return out;
+    }
     if (length < 0) {
       for (int64_t i = 0;  x[i] != 0;  i++) {
         content_.append((uint8_t)x[i]);
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index ca20f98..0c0079e 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -58,7 +58,9 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
   }
-- 
2.43.0


From fb50f0d094f73f2ea5675330c6e9371155bbe136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:22 +0000
Subject: [PATCH 23/55] fix: JSON output is always well-formed and numbers
 survive it

---
 src/awkward/operations/convert.py   |  5 +-
 src/awkward/partition.py            |  2 +-
 src/libawkward/array/NumpyArray.cpp | 22 ++++++++-
 src/libawkward/io/json.cpp          | 72 +++++++++++++++++++++++------
 4 files changed, 82 insertions(+), 19 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 0901052..eb319c9 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -1092,13 +1092,14 @@ def from_json(
                     and isinstance(imag, ak.layout.NumpyArray)
                     and len(imag.shape) == 1
                 ):
-                    return lambda: nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    return lambda: ak.layout.NumpyArray(
+                        nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    )
                 else:
                     raise ValueError(
                         "Complex number fields must be numbers"
                         + ak._util.exception_suffix(__file__)
                     )
-                return lambda: ak.layout.NumpyArray(real + imag * 1j)
             else:
                 return None
         else:
diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index c1293ca..87d409a 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -396,7 +396,7 @@ class PartitionedArray(object):
         return list(ak._util.find_caches(self))
 
     def tojson(self, *args, **kwargs):
-        return self._ext.tojson(*args, **kwargs)
+        return self.toContent().tojson(*args, **kwargs)
 
     @property
     def nbytes(self):
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 330a503..592e72e 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -3,6 +3,7 @@
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/array/NumpyArray.cpp", line)
 #define FILENAME_C(line) FILENAME_FOR_EXCEPTIONS_C("src/libawkward/array/NumpyArray.cpp", line)
 
+#include <limits>
 #include <algorithm>
 #include <complex>
 #include <iomanip>
@@ -4896,13 +4897,30 @@ namespace awkward {
     }
   }
 
+  template <typename T>
+  void
+  tojson_one_integer(ToJson& builder, T x) {
+    builder.integer((int64_t)x);
+  }
+
+  template <>
+  void
+  tojson_one_integer<uint64_t>(ToJson& builder, uint64_t x) {
+    if (x > (uint64_t)std::numeric_limits<int64_t>::max()) {
+      builder.json(std::to_string(x).c_str());
+    }
+    else {
+      builder.integer((int64_t)x);
+    }
+  }
+
   template <typename T>
   void
   NumpyArray::tojson_integer(ToJson& builder,
                              bool include_beginendlist) const {
     if (ndim() == 0) {
       T* array = reinterpret_cast<T*>(data());
-      builder.integer((int64_t)array[0]);
+      tojson_one_integer<T>(builder, array[0]);
     }
     else if (ndim() == 1) {
       T* array = reinterpret_cast<T*>(data());
@@ -4911,7 +4929,7 @@ namespace awkward {
         builder.beginlist();
       }
       for (int64_t i = 0;  i < length();  i++) {
-        builder.integer((int64_t)array[i*stride]);
+        tojson_one_integer<T>(builder, array[i*stride]);
       }
       if (include_beginendlist) {
         builder.endlist();
diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index cc10337..c8868ed 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -3,6 +3,9 @@
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/io/json.cpp", line)
 
 #include <complex>
+#include <cmath>
+#include <cstring>
+#include <limits>
 
 #include "rapidjson/document.h"
 #include "rapidjson/reader.h"
@@ -34,6 +37,26 @@ namespace awkward {
     field(x.c_str());
   }
 
+  // RapidJSON would write nothing at all for these, which is not a value.
+  template <typename WRITER>
+  void
+  write_double(WRITER& writer, double x) {
+    if (std::isnan(x)) {
+      writer.RawValue("NaN", 3, rj::kNumberType);
+    }
+    else if (std::isinf(x)) {
+      if (std::signbit(x)) {
+        writer.RawValue("-Infinity", 9, rj::kNumberType);
+      }
+      else {
+        writer.RawValue("Infinity", 8, rj::kNumberType);
+      }
+    }
+    else {
+      writer.Double(x);
+    }
+  }
+
   template <typename DOCUMENT, typename WRITER>
   void copyjson(const DOCUMENT& value, WRITER& writer) {
     if (value.IsNull()) {
@@ -42,14 +65,17 @@ namespace awkward {
     else if (value.IsBool()) {
       writer.Bool(value.GetBool());
     }
-    else if (value.IsInt()) {
-      writer.Int64(value.GetInt());
+    else if (value.IsInt64()) {
+      writer.Int64(value.GetInt64());
+    }
+    else if (value.IsUint64()) {
+      writer.Uint64(value.GetUint64());
     }
     else if (value.IsDouble()) {
-      writer.Int64((int64_t)value.GetDouble());
+      write_double(writer, value.GetDouble());
     }
     else if (value.IsString()) {
-      writer.String(value.GetString());
+      writer.String(value.GetString(), value.GetStringLength());
     }
     else if (value.IsArray()) {
       writer.StartArray();
@@ -82,7 +108,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { write_double(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
@@ -223,7 +249,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { write_double(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
@@ -368,7 +394,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { write_double(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
@@ -394,7 +420,7 @@ namespace awkward {
   private:
     std::shared_ptr<char> buffer_;
     rj::FileWriteStream stream_;
-    rj::Writer<rj::FileWriteStream> writer_ ;
+    rj::Writer<rj::FileWriteStream> writer_;
   };
 
   ToJsonFile::ToJsonFile(FILE* destination,
@@ -508,7 +534,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { write_double(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
@@ -691,7 +717,12 @@ namespace awkward {
 
     bool Uint64(uint64_t x) {
       moved_ = true;
-      builder_.integer((int64_t)x);
+      if (x > (uint64_t)std::numeric_limits<int64_t>::max()) {
+        builder_.real((double)x);
+      }
+      else {
+        builder_.integer((int64_t)x);
+      }
       return true;
     }
 
@@ -704,15 +735,15 @@ namespace awkward {
     bool
     String(const char* str, rj::SizeType length, bool copy) {
       moved_ = true;
-      if (nan_string_ != nullptr  &&  strcmp(str, nan_string_) == 0) {
+      if (nan_string_ != nullptr  &&  equals(str, length, nan_string_)) {
         builder_.real(std::numeric_limits<double>::quiet_NaN());
         return true;
       }
-      else if (infinity_string_ != nullptr  &&  strcmp(str, infinity_string_) == 0) {
+      else if (infinity_string_ != nullptr  &&  equals(str, length, infinity_string_)) {
         builder_.real(std::numeric_limits<double>::infinity());
         return true;
       }
-      else if (minus_infinity_string_ != nullptr  &&  strcmp(str, minus_infinity_string_) == 0) {
+      else if (minus_infinity_string_ != nullptr  &&  equals(str, length, minus_infinity_string_)) {
         builder_.real(-std::numeric_limits<double>::infinity());
         return true;
       }
@@ -762,6 +793,11 @@ namespace awkward {
     }
 
   private:
+    static bool
+    equals(const char* str, rj::SizeType length, const char* other) {
+      return strlen(other) == (size_t)length  &&  memcmp(str, other, length) == 0;
+    }
+
     ArrayBuilder builder_;
     bool moved_;
     const char* nan_string_;
@@ -775,7 +811,8 @@ namespace awkward {
     int64_t number = 0;
     while (stream.Peek() != 0) {
       handler.reset_moved();
-      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag>(stream, handler);
+      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag
+                                       | rj::kParseNanAndInfFlag>(stream, handler);
       if (handler.moved()) {
         if (!fully_parsed) {
           if (stream.Peek() == 0) {
@@ -795,6 +832,13 @@ namespace awkward {
           number++;
         }
       }
+      else if (!fully_parsed  &&
+               stream.Peek() == 0  &&
+               reader.GetParseErrorCode() != rj::kParseErrorDocumentEmpty) {
+        throw std::invalid_argument(
+          std::string("incomplete JSON object at the end of the stream")
+          + FILENAME(__LINE__));
+      }
       else if (stream.Peek() != 0) {
         throw std::invalid_argument(
           std::string("JSON File error at char ")
-- 
2.43.0


From 9b84d1523cdfba945dcb8229aec4a9a807fd2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:22 +0000
Subject: [PATCH 24/55] fix: packing keeps parameters and buffers are read up
 to the length they are needed for

---
 src/awkward/operations/convert.py   | 26 +++++++++++-----
 src/awkward/operations/structure.py | 46 +++++++++++++++++++++--------
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index eb319c9..06081f5 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4424,12 +4424,14 @@ _index_form_to_dtype = _index_form_to_index = _form_to_layout_class = None
 
 
 def _asbuf(obj):
+    if isinstance(obj, (bytes, bytearray)):
+        return numpy.frombuffer(obj, np.uint8)
     try:
         tmp = numpy.asarray(obj)
     except Exception:
         return numpy.frombuffer(obj, np.uint8)
     else:
-        return tmp.reshape(-1).view(np.uint8)
+        return numpy.ascontiguousarray(tmp).reshape(-1).view(np.uint8)
 
 
 def _form_to_layout(
@@ -4554,7 +4556,7 @@ def _form_to_layout(
         )
 
         return ak.layout.ByteMaskedArray(
-            mask, content, form.valid_when, identities, parameters
+            mask[:length], content, form.valid_when, identities, parameters
         )
 
     elif isinstance(form, ak.forms.EmptyForm):
@@ -4680,7 +4682,7 @@ def _form_to_layout(
         )
 
         return _form_to_layout_class[type(form), form.starts](
-            starts, stops, content, identities, parameters
+            starts[:length], stops[:length], content, identities, parameters
         )
 
     elif isinstance(form, ak.forms.ListOffsetForm):
@@ -4725,6 +4727,12 @@ def _form_to_layout(
         else:
             dtype, inner_shape = dtype_inner_shape.subdtype
 
+        if dtype_inner_shape.itemsize == 0:
+            array = numpy.zeros(
+                (0 if length is None else length,) + inner_shape, dtype=dtype
+            )
+            return ak.layout.NumpyArray(array, identities, parameters)
+
         if length is not None:
             actual = len(raw_array) // dtype_inner_shape.itemsize
             if length > actual:
@@ -4852,7 +4860,7 @@ def _form_to_layout(
             )
 
         return _form_to_layout_class[type(form), form.index](
-            tags, index, contents, identities, parameters
+            tags[:length], index[:length], contents, identities, parameters
         )
 
     elif isinstance(form, ak.forms.UnmaskedForm):
@@ -4924,7 +4932,8 @@ def _from_buffers_key():
 def _wrap_record_with_virtual(input_form):
     def modify(form):
         if form["class"] == "RecordArray":
-            for item in form["contents"].values():
+            contents = form["contents"]
+            for item in contents.values() if isinstance(contents, dict) else contents:
                 modify(item)
         elif form["class"].startswith("UnionArray"):
             for item in form["contents"]:
@@ -4933,11 +4942,12 @@ def _wrap_record_with_virtual(input_form):
             modify(form["content"])
 
         if form["class"] == "RecordArray":
-            for key in form["contents"].keys():
-                form["contents"][key] = {
+            contents = form["contents"]
+            for key in contents if isinstance(contents, dict) else range(len(contents)):
+                contents[key] = {
                     "class": "VirtualArray",
                     "has_length": True,
-                    "form": form["contents"][key],
+                    "form": contents[key],
                 }
 
     form = json.loads(input_form.tojson())
diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 1d142ea..1e18572 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2234,6 +2234,14 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             if isinstance(layout.content, ak._util.optiontypes):
                 return apply(layout.simplify(), depth, posaxis)
 
+            if layout.parameter("__array__") == "categorical":
+                return ak.layout.IndexedOptionArray64(
+                    ak.layout.Index64(nplike.asarray(layout.index).astype(np.int64)),
+                    apply(layout.content, depth, posaxis),
+                    layout.identities,
+                    layout.parameters,
+                )
+
             index = nplike.asarray(layout.index)
             new_index = nplike.zeros_like(index)
 
@@ -2242,12 +2250,25 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             new_index[~is_none] = nplike.arange(len(new_index) - nplike.sum(is_none))
 
             return ak.layout.IndexedOptionArray64(
-                ak.layout.Index64(new_index), apply(layout.project(), depth, posaxis)
+                ak.layout.Index64(new_index),
+                apply(layout.project(), depth, posaxis),
+                None,
+                layout.parameters,
             )
 
         # Project indexed arrays
         elif isinstance(layout, ak._util.indexedtypes):
-            return apply(layout.project(), depth, posaxis)
+            if layout.parameter("__array__") == "categorical":
+                return ak.layout.IndexedArray64(
+                    ak.layout.Index64(nplike.asarray(layout.index).astype(np.int64)),
+                    apply(layout.content, depth, posaxis),
+                    layout.identities,
+                    layout.parameters,
+                )
+            out = apply(layout.project(), depth, posaxis)
+            for key, value in layout.parameters.items():
+                out = out.withparameter(key, value)
+            return out
 
         # ListArray performs both ordering and resizing
         elif isinstance(
@@ -2280,7 +2301,11 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # UnmaskedArray just wraps another array
         elif isinstance(layout, ak.layout.UnmaskedArray):
-            return ak.layout.UnmaskedArray(apply(layout.content, depth, posaxis))
+            return ak.layout.UnmaskedArray(
+                apply(layout.content, depth, posaxis),
+                layout.identities,
+                layout.parameters,
+            )
 
         # UnionArrays can be simplified
         # and their contents too
@@ -2328,19 +2353,16 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # RegularArrays can change length
         elif isinstance(layout, ak.layout.RegularArray):
-            if not len(layout):
-                return layout
-
-            content = layout.content
-
             # Truncate content if it is larger than a perfect
             # multiple of the RegularArray size
-            n, r = divmod(len(content), layout.size)
-            if r != 0:
-                content = truncate(content, n * layout.size)
+            content = truncate(layout.content, len(layout) * layout.size)
 
             return ak.layout.RegularArray(
-                apply(content, depth + 1, posaxis), layout.size
+                apply(content, depth + 1, posaxis),
+                layout.size,
+                len(layout),
+                layout.identities,
+                layout.parameters,
             )
 
         # BitMaskedArrays can change length
-- 
2.43.0


From 72d0a2e96fdf14b74d2bf48f841020b71b47b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:22 +0000
Subject: [PATCH 25/55] fix: slices of virtual arrays with bit masks conform to
 their expected form

---
 include/awkward/array/ByteMaskedArray.h  |  3 +++
 include/awkward/array/RecordArray.h      |  3 +++
 include/awkward/array/RegularArray.h     |  3 +++
 include/awkward/array/UnmaskedArray.h    |  3 +++
 include/awkward/array/VirtualArray.h     |  3 +++
 src/libawkward/array/BitMaskedArray.cpp  |  8 ++++++++
 src/libawkward/array/ByteMaskedArray.cpp | 18 ++++++++++++++++++
 src/libawkward/array/RecordArray.cpp     | 13 +++++++++++++
 src/libawkward/array/RegularArray.cpp    |  9 +++++++++
 src/libawkward/array/UnmaskedArray.cpp   |  8 ++++++++
 src/libawkward/array/VirtualArray.cpp    | 10 ++++++++++
 11 files changed, 81 insertions(+)

diff --git a/include/awkward/array/ByteMaskedArray.h b/include/awkward/array/ByteMaskedArray.h
index bc82955..05ae8cf 100644
--- a/include/awkward/array/ByteMaskedArray.h
+++ b/include/awkward/array/ByteMaskedArray.h
@@ -90,6 +90,9 @@ namespace awkward {
             bool check_form_key,
             bool compatibility_check) const override;
 
+    const FormPtr
+      getitem_range() const override;
+
     const FormPtr
       getitem_field(const std::string& key) const override;
 
diff --git a/include/awkward/array/RecordArray.h b/include/awkward/array/RecordArray.h
index 84bc0ac..be29b7f 100644
--- a/include/awkward/array/RecordArray.h
+++ b/include/awkward/array/RecordArray.h
@@ -95,6 +95,9 @@ namespace awkward {
             bool check_form_key,
             bool compatibility_check) const override;
 
+    const FormPtr
+      getitem_range() const override;
+
     const FormPtr
       getitem_field(const std::string& key) const override;
 
diff --git a/include/awkward/array/RegularArray.h b/include/awkward/array/RegularArray.h
index 73eb73c..301503e 100644
--- a/include/awkward/array/RegularArray.h
+++ b/include/awkward/array/RegularArray.h
@@ -82,6 +82,9 @@ namespace awkward {
             bool check_form_key,
             bool compatibility_check) const override;
 
+    const FormPtr
+      getitem_range() const override;
+
     const FormPtr
       getitem_field(const std::string& key) const override;
 
diff --git a/include/awkward/array/UnmaskedArray.h b/include/awkward/array/UnmaskedArray.h
index 9328451..f145cbc 100644
--- a/include/awkward/array/UnmaskedArray.h
+++ b/include/awkward/array/UnmaskedArray.h
@@ -82,6 +82,9 @@ namespace awkward {
             bool check_form_key,
             bool compatibility_check) const override;
 
+    const FormPtr
+      getitem_range() const override;
+
     const FormPtr
       getitem_field(const std::string& key) const override;
 
diff --git a/include/awkward/array/VirtualArray.h b/include/awkward/array/VirtualArray.h
index 6d5efc2..5a315b4 100644
--- a/include/awkward/array/VirtualArray.h
+++ b/include/awkward/array/VirtualArray.h
@@ -87,6 +87,9 @@ namespace awkward {
             bool check_form_key,
             bool compatibility_check) const override;
 
+    const FormPtr
+      getitem_range() const override;
+
     const FormPtr
       getitem_field(const std::string& key) const override;
 
diff --git a/src/libawkward/array/BitMaskedArray.cpp b/src/libawkward/array/BitMaskedArray.cpp
index e52a9ec..9c20830 100644
--- a/src/libawkward/array/BitMaskedArray.cpp
+++ b/src/libawkward/array/BitMaskedArray.cpp
@@ -186,6 +186,14 @@ namespace awkward {
                        compatibility_check);
         }
       }
+      if (dynamic_cast<ByteMaskedForm*>(other.get())) {
+        // slicing a BitMaskedArray turns it into a ByteMaskedArray
+        return getitem_range().get()->equal(other,
+                                            check_identities,
+                                            check_parameters,
+                                            check_form_key,
+                                            compatibility_check);
+      }
     }
 
     if (check_identities  &&
diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index c2f9b73..d2fdf98 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -178,6 +178,14 @@ namespace awkward {
                        compatibility_check);
         }
       }
+      if (dynamic_cast<BitMaskedForm*>(other.get())) {
+        // slicing a BitMaskedArray turns it into a ByteMaskedArray
+        return equal(other.get()->getitem_range(),
+                     check_identities,
+                     check_parameters,
+                     check_form_key,
+                     compatibility_check);
+      }
     }
 
     if (check_identities  &&
@@ -206,6 +214,16 @@ namespace awkward {
     }
   }
 
+  const FormPtr
+  ByteMaskedForm::getitem_range() const {
+    return std::make_shared<ByteMaskedForm>(has_identities_,
+                                            parameters_,
+                                            form_key_,
+                                            mask_,
+                                            content_.get()->getitem_range(),
+                                            valid_when_);
+  }
+
   const FormPtr
   ByteMaskedForm::getitem_field(const std::string& key) const {
     ByteMaskedForm step1(has_identities_,
diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 97e2c55..2cfc6ee 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -328,6 +328,19 @@ namespace awkward {
     }
   }
 
+  const FormPtr
+  RecordForm::getitem_range() const {
+    std::vector<FormPtr> contents;
+    for (auto content : contents_) {
+      contents.push_back(content.get()->getitem_range());
+    }
+    return std::make_shared<RecordForm>(has_identities_,
+                                        parameters_,
+                                        form_key_,
+                                        recordlookup_,
+                                        contents);
+  }
+
   const FormPtr
   RecordForm::getitem_field(const std::string& key) const {
     return content(key);
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 3fc4691..e11ad26 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -211,6 +211,15 @@ namespace awkward {
     }
   }
 
+  const FormPtr
+  RegularForm::getitem_range() const {
+    return std::make_shared<RegularForm>(has_identities_,
+                                         parameters_,
+                                         form_key_,
+                                         content_.get()->getitem_range(),
+                                         size_);
+  }
+
   const FormPtr
   RegularForm::getitem_field(const std::string& key) const {
     return std::make_shared<RegularForm>(
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index cf2d875..3c34ae2 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -179,6 +179,14 @@ namespace awkward {
     }
   }
 
+  const FormPtr
+  UnmaskedForm::getitem_range() const {
+    return std::make_shared<UnmaskedForm>(has_identities_,
+                                          parameters_,
+                                          form_key_,
+                                          content_.get()->getitem_range());
+  }
+
   const FormPtr
   UnmaskedForm::getitem_field(const std::string& key) const {
     UnmaskedForm step1(has_identities_,
diff --git a/src/libawkward/array/VirtualArray.cpp b/src/libawkward/array/VirtualArray.cpp
index c2f53e4..39d9ad4 100644
--- a/src/libawkward/array/VirtualArray.cpp
+++ b/src/libawkward/array/VirtualArray.cpp
@@ -281,6 +281,16 @@ namespace awkward {
     }
   }
 
+  const FormPtr
+  VirtualForm::getitem_range() const {
+    return std::make_shared<VirtualForm>(
+      has_identities_,
+      parameters_,
+      form_key_,
+      form_.get() == nullptr ? form_ : form_.get()->getitem_range(),
+      has_length_);
+  }
+
   const FormPtr
   VirtualForm::getitem_field(const std::string& key) const {
     if (form_.get() == nullptr) {
-- 
2.43.0


From 2f52be33f43fc1d8da9ee146bb675d76e3019996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:59 +0000
Subject: [PATCH 26/55] fix: AwkwardForth exit, stepping, calls in loops,
 64-bit values, n-bit widths and bounds

exit leaves the loops of its own word only; stepping ends loop iterations and
words; call does not advance an interrupted loop or exceed the recursion depth;
64-bit machines read, count and take abs of 64-bit numbers; n-bit integers of
every width; floor division without overflow; negative counts are refused;
read-only inputs are accepted unless they must be writable.
---
 include/awkward/forth/ForthMachine.h       |   4 +
 src/libawkward/forth/ForthMachine.cpp      | 209 +++++++++++----------
 src/libawkward/forth/ForthOutputBuffer.cpp |   2 +-
 src/python/forth.cpp                       |  24 ++-
 4 files changed, 128 insertions(+), 111 deletions(-)

diff --git a/include/awkward/forth/ForthMachine.h b/include/awkward/forth/ForthMachine.h
index a3061ae..a292762 100644
--- a/include/awkward/forth/ForthMachine.h
+++ b/include/awkward/forth/ForthMachine.h
@@ -373,6 +373,10 @@ namespace awkward {
             int64_t exitdepth,
             int64_t dodepth);
 
+    /// @brief HERE
+    void
+      end_of_segment(int64_t recursion_target_depth_top) noexcept;
+
     /// @brief HERE
     void
       internal_run(bool single_step, int64_t recursion_target_depth_top); // noexcept
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..c519cb4 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1234,6 +1234,11 @@ namespace awkward {
       return current_error_;
     }
 
+    if (recursion_current_depth_ == recursion_max_depth_) {
+      current_error_ = util::ForthError::recursion_depth_exceeded;
+      return current_error_;
+    }
+
     recursion_target_depth_.push(recursion_current_depth_);
     bytecodes_pointer_push(dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY);
 
@@ -1923,7 +1928,7 @@ namespace awkward {
         }
 
         input_names_.push_back(name);
-        input_must_be_writable_.push_back(true);
+        input_must_be_writable_.push_back(false);
 
         pos += 2;
       }
@@ -2355,7 +2360,9 @@ namespace awkward {
           else {
             must_be_writable &= ((bytecode & READ_BIGENDIAN) != 0);
           }
-          input_must_be_writable_[input_index] = must_be_writable;
+          if (must_be_writable) {
+            input_must_be_writable_[input_index] = true;
+          }
 
           bool good = true;
           I nbits = 0;
@@ -2642,10 +2649,52 @@ namespace awkward {
     } // end loop over segment
   }
 
+  // Dividing the most negative integer by -1 overflows (it wraps, like 'negate').
+  template <typename T>
+  static inline T floor_divide(T one, T two) noexcept {
+    if (two == -1) {
+      return (T)(0 - (uint64_t)one);
+    }
+    T out = one / two;
+    return (one % two != 0  &&  ((one < 0) != (two < 0))) ? out - 1 : out;
+  }
+
+  template <typename T>
+  static inline T floor_modulo(T one, T two) noexcept {
+    if (two == -1) {
+      return 0;
+    }
+    T out = one % two;
+    return (out != 0  &&  ((out < 0) != (two < 0))) ? out + two : out;
+  }
+
   // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
   static uint8_t bitswap_lookup[16] = {0x0, 0x8, 0x4, 0xc, 0x2, 0xa, 0x6, 0xe,
                                        0x1, 0x9, 0x5, 0xd, 0x3, 0xb, 0x7, 0xf};
 
+  template <typename T, typename I>
+  void
+  ForthMachineOf<T, I>::end_of_segment(int64_t recursion_target_depth_top) noexcept {
+    bytecodes_pointer_pop();
+
+    // A 'do' loop at the target depth belongs to code that was interrupted by 'call'.
+    if (do_current_depth_ != 0  &&
+        do_abs_recursion_depth() == recursion_current_depth_  &&
+        recursion_current_depth_ != recursion_target_depth_top) {
+      // End one step of a 'do ... loop' or a 'do ... +loop'.
+      if (do_loop_is_step()) {
+        if (stack_cannot_pop()) {
+          current_error_ = util::ForthError::stack_underflow;
+          return;
+        }
+        do_i() += stack_pop();
+      }
+      else {
+        do_i()++;
+      }
+    }
+  }
+
   template <typename T, typename I>
   void
   ForthMachineOf<T, I>::internal_run(bool single_step, int64_t recursion_target_depth_top) { // noexcept
@@ -2688,6 +2737,10 @@ namespace awkward {
               return;
             }
             num_items = stack_pop();
+            if (num_items < 0  ||  num_items > kMaxInt64 / 8) {
+              current_error_ = util::ForthError::read_beyond;
+              return;
+            }
           }
 
           I format = ~bytecode & READ_MASK;
@@ -2770,7 +2823,7 @@ namespace awkward {
                 stack_push((T)value);   // note: pushing value
               }
               else {
-                output->write_one_int64((T)value, false);   // note: writing value as signed
+                output->write_one_int64(value, false);   // note: writing value as signed
               }
             }
           }
@@ -2790,59 +2843,40 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
-            uint64_t bits_wnd_l = 8;
-            uint64_t bits_wnd_r = 0;
-            int64_t items_remaining = num_items;
-            uint64_t data;
-            uint64_t tmp;
-            uint8_t* tmpptr;
-
-            if (items_remaining != 0) {
-              tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-              if (current_error_ != util::ForthError::none) {
-                return;
-              }
-              tmp = (uint64_t)(*tmpptr);
-              if (flip) {
-                // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-              }
-              data = tmp;
-            }
-            while (items_remaining != 0) {
-              if (bits_wnd_r >= 8) {
-                bits_wnd_r -= 8;
-                bits_wnd_l -= 8;
-                data >>= 8;
-              }
-              else if (bits_wnd_l - bits_wnd_r >= (uint64_t)bit_width) {
-                tmp = (data >> bits_wnd_r) & mask;
-                if (output == nullptr) {
-                  if (stack_cannot_push()) {
-                    current_error_ = util::ForthError::stack_overflow;
+            uint64_t byte = 0;
+            int64_t bits_left = 0;
+            for (int64_t count = 0;  count < num_items;  count++) {
+              uint64_t result = 0;
+              int64_t bits_read = 0;
+              while (bits_read < (int64_t)bit_width) {
+                if (bits_left == 0) {
+                  uint8_t* ptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
+                  if (current_error_ != util::ForthError::none) {
                     return;
                   }
-                  stack_push((T)tmp);
-                }
-                else {
-                  output->write_one_int64((T)tmp, false);
+                  byte = (uint64_t)(*ptr);
+                  if (flip) {
+                    // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
+                    byte = (uint64_t)(bitswap_lookup[byte & 0b1111] << 4) | bitswap_lookup[byte >> 4];
+                  }
+                  bits_left = 8;
                 }
-                items_remaining--;
-                bits_wnd_r += (uint64_t)bit_width;
+                int64_t bits = std::min(bits_left, (int64_t)bit_width - bits_read);
+                result |= (byte & (((uint64_t)1 << bits) - 1)) << bits_read;
+                byte >>= bits;
+                bits_left -= bits;
+                bits_read += bits;
               }
-              else {
-                tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-                if (current_error_ != util::ForthError::none) {
+
+              if (output == nullptr) {
+                if (stack_cannot_push()) {
+                  current_error_ = util::ForthError::stack_overflow;
                   return;
                 }
-                tmp = (uint64_t)(*tmpptr);
-                if (flip) {
-                  // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                  tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-                }
-                data |= tmp << bits_wnd_l;
-                bits_wnd_l += 8;
+                stack_push((T)result);
+              }
+              else {
+                output->write_one_uint64(result, false);
               }
             }
           }
@@ -2924,7 +2958,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2950,7 +2984,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3015,21 +3049,9 @@ namespace awkward {
             case CODE_PAUSE: {
               // In case of 'do ... pause loop/+loop', update the do-stack.
               if (is_segment_done()) {
-                bytecodes_pointer_pop();
-
-                if (do_current_depth_ != 0  &&
-                    do_abs_recursion_depth() == recursion_current_depth_) {
-                  // End one step of a 'do ... loop' or a 'do ... +loop'.
-                  if (do_loop_is_step()) {
-                    if (stack_cannot_pop()) {
-                      current_error_ = util::ForthError::stack_underflow;
-                      return;
-                    }
-                    do_i() += stack_pop();
-                  }
-                  else {
-                    do_i()++;
-                  }
+                end_of_segment(recursion_target_depth_top);
+                if (current_error_ != util::ForthError::none) {
+                  return;
                 }
               }
 
@@ -3154,16 +3176,15 @@ namespace awkward {
               I exitdepth = bytecode_get();
               bytecodes_pointer_where()++;
               recursion_current_depth_ -= exitdepth;
+              // Leave all of the 'do' loops of this word, but not its callers'.
               while (do_current_depth_ != 0  &&
-                     do_abs_recursion_depth() != recursion_current_depth_) {
+                     do_abs_recursion_depth() >= recursion_current_depth_) {
                 do_current_depth_--;
               }
 
               count_instructions_++;
               if (single_step) {
-                if (is_segment_done()) {
-                  bytecodes_pointer_pop();
-                }
+                end_of_segment(recursion_target_depth_top);
                 return;
               }
 
@@ -3217,7 +3238,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3228,7 +3249,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3324,7 +3345,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3388,7 +3409,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3397,7 +3418,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3406,7 +3427,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
@@ -3537,8 +3558,7 @@ namespace awkward {
               }
               // Forth (gforth, at least) does floor division; C++ does integer division.
               // This makes a difference for negative numerator or denominator.
-              T tmp = pair[0] / pair[1];
-              pair[0] = tmp * pair[1] == pair[0] ? tmp : tmp - ((pair[0] < 0) ^ (pair[1] < 0));
+              pair[0] = floor_divide(pair[0], pair[1]);
               break;
             }
 
@@ -3554,7 +3574,7 @@ namespace awkward {
               }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
-              pair[0] = (pair[1] + (pair[0] % pair[1])) % pair[1];
+              pair[0] = floor_modulo(pair[0], pair[1]);
               break;
             }
 
@@ -3570,11 +3590,8 @@ namespace awkward {
                 return;
               }
               // See notes on division and modulo/remainder above.
-              T tmp = one / two;
-              stack_buffer_[stack_depth_ - 1] =
-                  tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
-              stack_buffer_[stack_depth_ - 2] =
-                  (two + (one % two)) % two;
+              stack_buffer_[stack_depth_ - 1] = floor_divide(one, two);
+              stack_buffer_[stack_depth_ - 2] = floor_modulo(one, two);
               break;
             }
 
@@ -3614,7 +3631,7 @@ namespace awkward {
                 return;
               }
               T* top = stack_peek();
-              *top = abs(*top);
+              *top = *top < 0 ? -(*top) : *top;
               break;
             }
 
@@ -3791,7 +3808,7 @@ namespace awkward {
         count_instructions_++;
         if (single_step) {
           if (is_segment_done()) {
-            bytecodes_pointer_pop();
+            end_of_segment(recursion_target_depth_top);
           }
           return;
         }
@@ -3799,21 +3816,9 @@ namespace awkward {
       } // end walk over instructions in this segment
 
     after_end_of_segment:
-      bytecodes_pointer_pop();
-
-      if (do_current_depth_ != 0  &&
-          do_abs_recursion_depth() == recursion_current_depth_) {
-        // End one step of a 'do ... loop' or a 'do ... +loop'.
-        if (do_loop_is_step()) {
-          if (stack_cannot_pop()) {
-            current_error_ = util::ForthError::stack_underflow;
-            return;
-          }
-          do_i() += stack_pop();
-        }
-        else {
-          do_i()++;
-        }
+      end_of_segment(recursion_target_depth_top);
+      if (current_error_ != util::ForthError::none) {
+        return;
       }
 
     } // end of all segments
diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 6fdd512..a4e640f 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -67,7 +67,7 @@ namespace awkward {
   void
   ForthOutputBuffer::rewind(int64_t num_items, util::ForthError& err) noexcept {
     int64_t next = length_ - num_items;
-    if (next < 0) {
+    if (num_items < 0  ||  next < 0) {
       err = util::ForthError::rewind_beyond;
     }
     else {
diff --git a/src/python/forth.cpp b/src/python/forth.cpp
index ae77a4d..bfa0e31 100644
--- a/src/python/forth.cpp
+++ b/src/python/forth.cpp
@@ -10,6 +10,20 @@
 #include "awkward/python/content.h"
 #include "awkward/python/forth.h"
 
+static int64_t
+input_length(const py::buffer_info& info, const std::string& name) {
+  int64_t length = info.itemsize;
+  for (size_t i = info.shape.size();  i-- > 0; ) {
+    if (info.shape[i] > 1  &&  info.strides[i] != length) {
+      throw std::invalid_argument(
+        std::string("AwkwardForth input must be contiguous: ") + name
+        + FILENAME(__LINE__));
+    }
+    length *= info.shape[i];
+  }
+  return length;
+}
+
 template <typename T, typename I>
 py::object maybe_throw(const ak::ForthMachineOf<T, I>& self,
                        ak::util::ForthError err,
@@ -228,10 +242,7 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                 std::string name = pair.first.cast<std::string>();
                 py::buffer obj = pair.second.cast<py::buffer>();
                 py::buffer_info info = obj.request(self.input_must_be_writable(name));
-                int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
-                }
+                int64_t length = input_length(info, name);
                 std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
                     reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
                 ins[name] = std::make_shared<ak::ForthInputBuffer>(ptr, 0, length);
@@ -289,10 +300,7 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                 std::string name = pair.first.cast<std::string>();
                 py::buffer obj = pair.second.cast<py::buffer>();
                 py::buffer_info info = obj.request(self.input_must_be_writable(name));
-                int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
-                }
+                int64_t length = input_length(info, name);
                 std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
                     reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
                 ins[name] = std::make_shared<ak::ForthInputBuffer>(ptr, 0, length);
-- 
2.43.0


From 0cd805d137c138cc4f1ec7e1ebca2992c4c25d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:19 +0000
Subject: [PATCH 27/55] fix: strings are broadcasted as a whole, whatever their
 lengths

---
 src/awkward/_util.py | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index d1e0166..865af9c 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -783,11 +783,28 @@ def broadcast_and_apply(  # noqa: C901
             )
 
         elif any(isinstance(x, listtypes) for x in inputs):
-            if all(
-                isinstance(x, ak.layout.RegularArray) or not isinstance(x, listtypes)
+            fcns = [
+                custom_broadcast(x, behavior)
+                if isinstance(x, ak.layout.Content)
+                else None
                 for x in inputs
+            ]
+            # lists with a custom broadcast (such as strings) are not opened if
+            # there are any ordinary lists among the inputs
+            if all(callable(f) for x, f in zip(inputs, fcns) if isinstance(x, listtypes)):
+                fcns = [None] * len(inputs)
+
+            if all(
+                isinstance(x, ak.layout.RegularArray)
+                or not isinstance(x, listtypes)
+                or callable(fcn)
+                for x, fcn in zip(inputs, fcns)
             ):
-                regulars = [x for x in inputs if isinstance(x, ak.layout.RegularArray)]
+                regulars = [
+                    x
+                    for x, fcn in zip(inputs, fcns)
+                    if isinstance(x, ak.layout.RegularArray) and not callable(fcn)
+                ]
                 length = len(regulars[0])
                 maxsize = max(x.size for x in regulars)
                 if maxsize == 1 and any(x.size == 0 for x in regulars):
@@ -796,8 +813,11 @@ def broadcast_and_apply(  # noqa: C901
                     nplike.repeat(nplike.arange(length, dtype=np.int64), maxsize)
                 )
                 nextinputs = []
-                for x in inputs:
-                    if isinstance(x, ak.layout.RegularArray):
+                for x, fcn in zip(inputs, fcns):
+                    if callable(fcn):
+                        offsets = nplike.arange(length + 1, dtype=np.int64) * maxsize
+                        nextinputs.append(fcn(x, ak.layout.Index64(offsets)))
+                    elif isinstance(x, ak.layout.RegularArray):
                         if x.size == maxsize:
                             nextinputs.append(x.content[: length * maxsize])
                         elif x.size == 1:
@@ -829,15 +849,10 @@ def broadcast_and_apply(  # noqa: C901
                     ak.layout.RegularArray(x, maxsize, length) for x in outcontent
                 )
 
-            elif not all_same_offsets(nplike, inputs):
-                fcns = [
-                    custom_broadcast(x, behavior)
-                    if isinstance(x, ak.layout.Content)
-                    else None
-                    for x in inputs
-                ]
-
-                first, secondround = None, False
+            elif any(callable(fcn) for fcn in fcns) or not all_same_offsets(
+                nplike, inputs
+            ):
+                first = None
                 for x, fcn in zip(inputs, fcns):
                     if (
                         isinstance(x, listtypes)
@@ -847,20 +862,11 @@ def broadcast_and_apply(  # noqa: C901
                         first = x
                         break
 
-                if first is None:
-                    secondround = True
-                    for x in inputs:
-                        if isinstance(x, listtypes) and not isinstance(
-                            x, ak.layout.RegularArray
-                        ):
-                            first = x
-                            break
-
                 offsets = first.compact_offsets64(True)
 
                 nextinputs = []
                 for x, fcn in zip(inputs, fcns):
-                    if callable(fcn) and not secondround:
+                    if callable(fcn):
                         nextinputs.append(fcn(x, offsets))
                     elif isinstance(x, listtypes):
                         nextinputs.append(x.broadcast_tooffsets64(offsets).content)
-- 
2.43.0


From 7ba833b05943ebeab006b4d4a5311031b02266b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:19 +0000
Subject: [PATCH 28/55] fix: zip pairs up lists of strings and arrays of only
 strings

---
 src/awkward/operations/structure.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 1e18572..08bb690 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -631,15 +631,7 @@ def zip(
     def getfunction(inputs, depth):
         if depth_limit == depth or (
             depth_limit is None
-            and all(
-                x.purelist_depth == 1
-                or (
-                    x.purelist_depth == 2
-                    and x.purelist_parameter("__array__")
-                    in ("string", "bytestring", "categorical")
-                )
-                for x in inputs
-            )
+            and all(x.purelist_depth == 1 for x in inputs)
         ):
             return lambda: (
                 ak.layout.RecordArray(inputs, recordlookup, parameters=parameters),
-- 
2.43.0


From a814ff4bf3a28f3c6f42f8f7477737e8931fe654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:19 +0000
Subject: [PATCH 29/55] fix: with_field replaces the only field of nested
 records

---
 src/awkward/operations/structure.py | 70 +++++++++++++----------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 08bb690..cec4483 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -943,47 +943,41 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
         if where in base.keys():
             keys.remove(where)
 
-        if len(keys) == 0:
-            # the only key was removed, so just create new Record
-            out = (ak.layout.RecordArray([what], [where], parameters=base.parameters),)
-
-        else:
-
-            def getfunction(inputs):
-                nplike = ak.nplike.of(*inputs)
-                base, what = inputs
-                if isinstance(base, ak.layout.RecordArray):
-                    if what is None:
-                        what = ak.layout.IndexedOptionArray64(
-                            ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
-                            ak.layout.EmptyArray(),
-                        )
-                    elif not isinstance(what, ak.layout.Content):
-                        what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
-                    if base.istuple and where is None:
-                        recordlookup = None
-                    elif base.istuple:
-                        recordlookup = keys + [where]
-                    elif where is None:
-                        recordlookup = keys + [str(len(keys))]
-                    else:
-                        recordlookup = keys + [where]
-                    out = ak.layout.RecordArray(
-                        [base[k] for k in keys] + [what],
-                        recordlookup,
-                        parameters=base.parameters,
+        def getfunction(inputs):
+            nplike = ak.nplike.of(*inputs)
+            base, what = inputs
+            if isinstance(base, ak.layout.RecordArray):
+                if what is None:
+                    what = ak.layout.IndexedOptionArray64(
+                        ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
+                        ak.layout.EmptyArray(),
                     )
-                    return lambda: (out,)
+                elif not isinstance(what, ak.layout.Content):
+                    what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
+                if base.istuple and where is None:
+                    recordlookup = None
+                elif base.istuple:
+                    recordlookup = keys + [where]
+                elif where is None:
+                    recordlookup = keys + [str(len(keys))]
                 else:
-                    return None
+                    recordlookup = keys + [where]
+                out = ak.layout.RecordArray(
+                    [base[k] for k in keys] + [what],
+                    recordlookup,
+                    parameters=base.parameters,
+                )
+                return lambda: (out,)
+            else:
+                return None
 
-            out = ak._util.broadcast_and_apply(
-                [base, what],
-                getfunction,
-                behavior,
-                right_broadcast=False,
-                pass_depth=False,
-            )
+        out = ak._util.broadcast_and_apply(
+            [base, what],
+            getfunction,
+            behavior,
+            right_broadcast=False,
+            pass_depth=False,
+        )
 
         assert isinstance(out, tuple) and len(out) == 1
 
-- 
2.43.0


From 8ac542b08a2461aad1b78f38b4ba2bb144d2bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:03 +0000
Subject: [PATCH 30/55] fix: zip depth_limit beyond the depth, with_field of
 missing values in optional records

---
 src/awkward/operations/structure.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index cec4483..f75fb45 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -629,10 +629,7 @@ def zip(
         parameters["__record__"] = with_name
 
     def getfunction(inputs, depth):
-        if depth_limit == depth or (
-            depth_limit is None
-            and all(x.purelist_depth == 1 for x in inputs)
-        ):
+        if depth_limit == depth or all(x.purelist_depth == 1 for x in inputs):
             return lambda: (
                 ak.layout.RecordArray(inputs, recordlookup, parameters=parameters),
             )
@@ -968,6 +965,26 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
                     parameters=base.parameters,
                 )
                 return lambda: (out,)
+            elif (
+                isinstance(base, ak._util.optiontypes)
+                and isinstance(what, ak._util.optiontypes)
+                and base.purelist_depth == 1
+            ):
+                # a missing value does not make the record it is put in missing
+                valid = nplike.asarray(base.bytemask()) == 0
+                index = nplike.full(len(base), -1, np.int64)
+                index[valid] = nplike.arange(nplike.sum(valid), dtype=np.int64)
+                (content,) = ak._util.broadcast_and_apply(
+                    [base.project(), what[valid]],
+                    getfunction,
+                    behavior,
+                    right_broadcast=False,
+                    pass_depth=False,
+                )
+                out = ak.layout.IndexedOptionArray64(
+                    ak.layout.Index64(index), content, parameters=base.parameters
+                ).simplify()
+                return lambda: (out,)
             else:
                 return None
 
-- 
2.43.0


From f9f4a3b3b14ffdd18b1bb84196d06c365b6ffb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:37 +0000
Subject: [PATCH 31/55] fix: overlaying a mask on an unsigned 32-bit index
 gives -1, not 4294967295

---
 src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
index de98cec..d1b7dc1 100644
--- a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
+++ b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
@@ -12,7 +12,7 @@ ERROR awkward_IndexedArray_overlay_mask(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     M m = mask[i];
-    toindex[i] = (m ? -1 : fromindex[i]);
+    toindex[i] = (m ? -1 : (TO)fromindex[i]);
   }
   return success();
 }
-- 
2.43.0


From 20cab7865a8fb509fd39e83973ddcd9a05079fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:37 +0000
Subject: [PATCH 32/55] fix: definitions of five kernels in the kernel
 specification

---
 kernel-specification.yml | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index 726c7d3..c920c78 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -1615,10 +1615,10 @@ kernels:
               stride = fromstops[i] - fromstarts[i]
               tostarts[i] = k
               for j in range(stride):
-                  if index[fromstarts[i] + j] > 0:
+                  if not (index[fromstarts[i] + j] < 0):
                       k = k + 1
               tostops[i] = k
-          tolength = k
+          tolength[0] = k
     automatic-tests: false
     manual-tests: []
 
@@ -1655,7 +1655,7 @@ kernels:
           for i in range(length):
               stride = fromstops[i] - fromstarts[i]
               for j in range(stride):
-                  if index[fromstarts[i] + j] > 0:
+                  if not (index[fromstarts[i] + j] < 0):
                       tocarry[k] = index[fromstarts[i] + j]
                       k = k + 1
     automatic-tests: false
@@ -2183,7 +2183,7 @@ kernels:
                   if slicestop > missinglength:
                       raise ValueError("jagged slice's offsets extend beyond its content")
                   for j in range(slicestart, slicestop):
-                      numvalid[0] = numvalid[0] + 1 if missing[j] >= 0 else 0
+                      numvalid[0] = numvalid[0] + (1 if missing[j] >= 0 else 0)
     automatic-tests: false
     manual-tests: []
 
@@ -4489,7 +4489,7 @@ kernels:
           - {name: tooffset, type: "int64_t", dir: in, role: IndexedArray-index-offset}
           - {name: fromptr, type: "Const[List[int64_t]]", dir: in, role: NumpyArray-ptr}
           - {name: length, type: "int64_t", dir: in, role: default}
-          - {name: scale, type: "float", dir: in, role: default}
+          - {name: scale, type: "double", dir: in, role: default}
     description: null
     definition: |
       def awkward_NumpyArray_fill_scaled(toptr, tooffset, fromptr, length, scale):
@@ -6244,7 +6244,9 @@ kernels:
           for i in range(repetitions):
               for j in range(indexlength):
                   base = index[j]
-                  outindex[(i * indexlength) + j] = base + i * regularsize if base >= 0 else 0
+                  outindex[(i * indexlength) + j] = base + (
+                    i * regularsize if base >= 0 else 0
+                  )
     automatic-tests: true
     manual-tests: []
 
-- 
2.43.0


From d17671a106c91ac4a456127a34156d3c5abe4167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:08 +0000
Subject: [PATCH 33/55] fix: argmin and argmax of a whole partitioned array

---
 src/awkward/operations/reducers.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index 5727e07..2275ae8 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -712,16 +712,17 @@ def argmin(array, axis=None, keepdims=False, mask_identity=True):
 
     if axis is None:
         if isinstance(layout, ak.partition.PartitionedArray):
-            start = 0
+            starts = {}
             best_index = None
             best_value = None
             for partition in layout.partitions:
-                for tmp in ak._util.completely_flatten(partition):
-                    out = ak.nplike.of(tmp).argmin(tmp, axis=None)
-                    if best_index is None or tmp[out] < best_value:
-                        best_index = start + out
-                        best_value = tmp[out]
-                start += len(partition)
+                for i, tmp in enumerate(ak._util.completely_flatten(partition)):
+                    if len(tmp) != 0:
+                        out = ak.nplike.of(tmp).argmin(tmp, axis=None)
+                        if best_index is None or tmp[out] < best_value:
+                            best_index = starts.get(i, 0) + out
+                            best_value = tmp[out]
+                        starts[i] = starts.get(i, 0) + len(tmp)
             return best_index
 
         else:
@@ -782,16 +783,17 @@ def argmax(array, axis=None, keepdims=False, mask_identity=True):
 
     if axis is None:
         if isinstance(layout, ak.partition.PartitionedArray):
-            start = 0
+            starts = {}
             best_index = None
             best_value = None
             for partition in layout.partitions:
-                for tmp in ak._util.completely_flatten(partition):
-                    out = ak.nplike.of(tmp).argmax(tmp, axis=None)
-                    if best_index is None or tmp[out] > best_value:
-                        best_index = start + out
-                        best_value = tmp[out]
-                start += len(partition)
+                for i, tmp in enumerate(ak._util.completely_flatten(partition)):
+                    if len(tmp) != 0:
+                        out = ak.nplike.of(tmp).argmax(tmp, axis=None)
+                        if best_index is None or tmp[out] > best_value:
+                            best_index = starts.get(i, 0) + out
+                            best_value = tmp[out]
+                        starts[i] = starts.get(i, 0) + len(tmp)
             return best_index
 
         else:
-- 
2.43.0


From 8e42ee392cc920fde57a274e075f976815a3fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:08 +0000
Subject: [PATCH 34/55] fix: values_astype of multidimensional NumPy arrays

---
 src/libawkward/array/NumpyArray.cpp | 31 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 592e72e..3e86d45 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5159,6 +5159,11 @@ namespace awkward {
         itemsize *= shape[(size_t)(j - 1)];
       }
 
+      int64_t flatlength = 1;
+      for (auto x : shape) {
+        flatlength *= (int64_t)x;
+      }
+
       IdentitiesPtr identities = contiguous_self.identities();
       if (contiguous_self.identities().get() != nullptr) {
         identities = contiguous_self.identities().get()->deep_copy();
@@ -5167,47 +5172,47 @@ namespace awkward {
       switch (dtype_) {
       case util::dtype::boolean:
         ptr = as_type<bool>(reinterpret_cast<bool*>(contiguous_self.data()),
-                            contiguous_self.length(),
+                            flatlength,
                             dtype);
         break;
       case util::dtype::int8:
         ptr = as_type<int8_t>(reinterpret_cast<int8_t*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::int16:
         ptr = as_type<int16_t>(reinterpret_cast<int16_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int32:
         ptr = as_type<int32_t>(reinterpret_cast<int32_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int64:
         ptr = as_type<int64_t>(reinterpret_cast<int64_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint8:
         ptr = as_type<uint8_t>(reinterpret_cast<uint8_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint16:
         ptr = as_type<uint16_t>(reinterpret_cast<uint16_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint32:
         ptr = as_type<uint32_t>(reinterpret_cast<uint32_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint64:
         ptr = as_type<uint64_t>(reinterpret_cast<uint64_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::float16:
@@ -5217,12 +5222,12 @@ namespace awkward {
         break;
       case util::dtype::float32:
         ptr = as_type<float>(reinterpret_cast<float*>(contiguous_self.data()),
-                             contiguous_self.length(),
+                             flatlength,
                              dtype);
         break;
       case util::dtype::float64:
         ptr = as_type<double>(reinterpret_cast<double*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::float128:
@@ -5232,12 +5237,12 @@ namespace awkward {
         break;
       case util::dtype::complex64:
         ptr = as_type<std::complex<float>>(reinterpret_cast<std::complex<float>*>(contiguous_self.data()),
-                                           contiguous_self.length(),
+                                           flatlength,
                                            dtype);
         break;
       case util::dtype::complex128:
         ptr = as_type<std::complex<double>>(reinterpret_cast<std::complex<double>*>(contiguous_self.data()),
-                                            contiguous_self.length(),
+                                            flatlength,
                                             dtype);
         break;
       case util::dtype::complex256:
-- 
2.43.0


From 5d6ee1d1a64cae0513827f60429b631115bb6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:08 +0000
Subject: [PATCH 35/55] fix: sorting and padding records keeps the number of
 records

---
 src/libawkward/array/RecordArray.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 2cfc6ee..a4ef5af 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1450,7 +1450,8 @@ namespace awkward {
         return std::make_shared<RecordArray>(identities_,
                                              parameters_,
                                              contents,
-                                             recordlookup_);
+                                             recordlookup_,
+                                             length_);
       }
     }
   }
@@ -1480,7 +1481,8 @@ namespace awkward {
         return std::make_shared<RecordArray>(identities_,
                                              parameters_,
                                              contents,
-                                             recordlookup_);
+                                             recordlookup_,
+                                             length_);
       }
     }
   }
@@ -1645,7 +1647,9 @@ namespace awkward {
                                          parameters_,
                                          contents,
                                          recordlookup_,
-                                         outlength);
+                                         contents.empty()
+                                           ? length()
+                                           : contents[0].get()->length());
   }
 
   const ContentPtr
@@ -1676,7 +1680,7 @@ namespace awkward {
       util::Parameters(),
       contents,
       recordlookup_,
-      outlength);
+      contents.empty() ? length() : contents[0].get()->length());
   }
 
   const ContentPtr
-- 
2.43.0


From 623c7f0489d979a13e30e4516dfe39a696a7ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:08 +0000
Subject: [PATCH 36/55] fix: partitioned arrays that are empty, mixed or sliced
 in the partitioned dimension

---
 src/awkward/operations/structure.py           | 15 +++--
 src/awkward/partition.py                      | 55 +++++++++++++++++--
 .../partition/IrregularlyPartitionedArray.cpp | 10 ++++
 src/libawkward/partition/PartitionedArray.cpp |  2 +-
 4 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f75fb45..ad46c71 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1030,7 +1030,7 @@ def with_parameter(array, parameter, value, highlevel=True, behavior=None):
 
     if isinstance(layout, ak.partition.PartitionedArray):
         out = layout.replace_partitions(
-            x.withparameter(parameter, value) for x in layout.partitions
+            [x.withparameter(parameter, value) for x in layout.partitions]
         )
     else:
         out = layout.withparameter(parameter, value)
@@ -1524,11 +1524,14 @@ def concatenate(
                     offsets.append(offsets[-1] + 1)
 
             def compatible(x, y):
-                if isinstance(x, ak._util.virtualtypes) or isinstance(y, ak._util.virtualtypes):
+                if isinstance(x, ak._util.virtualtypes) or isinstance(
+                    y, ak._util.virtualtypes
+                ):
                     return True  # lazy arrays are not touched here
-                return x.form.type({}) == y.form.type({}) or x.mergeable(
-                    y, mergebool=mergebool
-                )
+                try:
+                    return x.form.type({}) == y.form.type({})
+                except ValueError:
+                    return True  # lazy arrays without a Form are not touched here
 
             if all(compatible(partitions[0], x) for x in partitions[1:]):
                 out = ak.partition.IrregularlyPartitionedArray(partitions, offsets[1:])
@@ -3946,7 +3949,7 @@ def repartition(array, lengths, highlevel=True, behavior=None):
 
             howmany = len(layout) // lengths
             remainder = len(layout) - howmany * lengths
-            if remainder == 0:
+            if remainder == 0 and howmany != 0:
                 lengths = [lengths] * howmany
             else:
                 lengths = [lengths] * howmany + [remainder]
diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 87d409a..1ba7516 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -91,6 +91,29 @@ def iterate(numpartitions, arrays):
             yield out
 
 
+def _is_array_slice(item):
+    if item is None or item is Ellipsis or isinstance(item, (slice, numbers.Number)):
+        return False
+    elif isinstance(item, (str, np.number)) or (
+        ak._util.py27 and isinstance(item, ak._util.unicode)
+    ):
+        return False
+    elif isinstance(item, Iterable):
+        item = _slice_layout(item)
+        if isinstance(item, (ak.layout.Content, PartitionedArray)):
+            return True
+        return not all(
+            isinstance(x, str) or (ak._util.py27 and isinstance(x, ak._util.unicode))
+            for x in item
+        )
+    else:
+        return True
+
+
+def _slice_layout(item):
+    return item.layout if isinstance(item, ak.highlevel.Array) else item
+
+
 def apply(function, array):
     return IrregularlyPartitionedArray([function(x) for x in array.partitions])
 
@@ -261,7 +284,15 @@ class PartitionedArray(object):
                 where = (where,)
             head, tail = where[0], where[1:]
 
-            if not isinstance(head, (bool, np.bool_)) and isinstance(
+            if any(_is_array_slice(x) for x in tail):
+                # arrays are aligned with the whole array or with each other
+                where = tuple(
+                    x.toContent() if isinstance(x, PartitionedArray) else x
+                    for x in (_slice_layout(x) for x in where)
+                )
+                return self.toContent()[where]
+
+            elif not isinstance(head, (bool, np.bool_)) and isinstance(
                 head, (numbers.Integral, np.integer)
             ):
                 if head < 0:
@@ -282,6 +313,10 @@ class PartitionedArray(object):
                     [x[(slice(None),) + tail] for x in partitions]
                 )
 
+            elif head is Ellipsis and self.minmax_depth[0] <= len(tail):
+                # the tail might reach the dimension that is partitioned
+                return self.toContent()[(head,) + tail]
+
             elif head is Ellipsis:
                 return IrregularlyPartitionedArray(
                     [x[(head,) + tail] for x in self.partitions]
@@ -326,7 +361,7 @@ class PartitionedArray(object):
                     numpytype=(np.integer, np.bool_),
                 )
 
-                t = ak.operations.describe.type(layout)
+                t = ak.operations.describe.type(first(layout))
                 int_types = [
                     ak.types.PrimitiveType("int8"),
                     ak.types.PrimitiveType("uint8"),
@@ -342,6 +377,7 @@ class PartitionedArray(object):
                 if (
                     isinstance(t, ak.types.OptionType)
                     or t in int_types + opt_types
+                    or isinstance(t, ak.types.RegularType)
                     or (
                         isinstance(t, ak.types.UnionType)
                         and all(ti in int_types for ti in t.types)
@@ -357,6 +393,14 @@ class PartitionedArray(object):
                     return self.toContent()[(layout,) + tail]
 
                 else:
+                    if len(layout) != len(self):
+                        raise ValueError(
+                            "cannot fit a slice of length {0} into a "
+                            "partitioned array of length {1}".format(
+                                len(layout), len(self)
+                            )
+                            + ak._util.exception_suffix(__file__)
+                        )
                     stops = self.stops
                     if isinstance(layout, PartitionedArray):
                         layout = layout.repartition(stops)
@@ -554,14 +598,17 @@ class PartitionedArray(object):
         negaxis = -axis
         if not branch and negaxis <= 0:
             negaxis += depth
-        if not branch and negaxis == depth:
+        if (not branch and negaxis == depth) or (
+            branch and self.minmax_depth[0] <= negaxis
+        ):
             if initial is None:
                 return getattr(self.toContent(), name)(axis, mask, keepdims)
             else:
                 return getattr(self.toContent(), name)(axis, mask, keepdims, initial)
         else:
+            args = () if initial is None else (initial,)
             return self.replace_partitions(
-                [getattr(x, name)(axis, mask, keepdims) for x in self.partitions]
+                [getattr(x, name)(axis, mask, keepdims, *args) for x in self.partitions]
             )
 
     def count(self, axis, mask, keepdims):
diff --git a/src/libawkward/partition/IrregularlyPartitionedArray.cpp b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
index 1b02b02..bbf2cba 100644
--- a/src/libawkward/partition/IrregularlyPartitionedArray.cpp
+++ b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
@@ -68,6 +68,11 @@ namespace awkward {
     if (stops == stops_) {
       return shallow_copy();
     }
+    if (stops.empty()) {
+      throw std::invalid_argument(
+        std::string("cannot repartition array to zero partitions")
+        + FILENAME(__LINE__));
+    }
     if (stops.back() != stops_.back()) {
       throw std::invalid_argument(
         std::string("cannot repartition array of length ")
@@ -85,6 +90,11 @@ namespace awkward {
 
       while (dst.get() == nullptr  ||  dst.get()->length() < length) {
         ContentPtr piece(nullptr);
+        if (partitionid == numpartitions()) {
+          // all elements have been assigned; the rest of the stops are empty
+          partitionid--;
+          index = partitions_[(size_t)partitionid].get()->length();
+        }
         ContentPtr src = partitions_[(size_t)partitionid];
         int64_t available = src.get()->length() - index;
         int64_t desired = (dst.get() == nullptr ? length
diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index b1875e9..e3456cd 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -254,7 +254,7 @@ namespace awkward {
     }
 
     if (partitions.empty()) {
-      partitions.push_back(partitions_[0].get()->getitem_nothing());
+      partitions.push_back(partitions_[0].get()->getitem_range_nowrap(0, 0));
       stops.push_back(0);
     }
     return std::make_shared<IrregularlyPartitionedArray>(partitions, stops);
-- 
2.43.0


From 19bf701bf5bd800bc35a0b865725b90589c4fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:08 +0000
Subject: [PATCH 37/55] fix: cartesian of multidimensional NumPy arrays

---
 src/awkward/operations/structure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index ad46c71..5289567 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3403,7 +3403,10 @@ def cartesian(
                             + ak._util.exception_suffix(__file__)
                         )
                     nextlayout = ak._util.recursively_apply(
-                        layout, getgetfunction1(inside), pass_depth=True
+                        layout,
+                        getgetfunction1(inside),
+                        pass_depth=True,
+                        numpy_to_regular=True,
                     )
                     return lambda: newaxis(nextlayout, outside)
                 else:
@@ -3416,7 +3419,7 @@ def cartesian(
                 x, allow_record=False, allow_other=False
             )
             return ak._util.recursively_apply(
-                layout, getgetfunction2(i), pass_depth=True
+                layout, getgetfunction2(i), pass_depth=True, numpy_to_regular=True
             )
 
         toflatten = []
-- 
2.43.0


From 15d2650869b2d26f500c00af4882b18066fe3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:18 +0000
Subject: [PATCH 38/55] fix: operations on several option-type arrays do not
 modify their masks

---
 src/awkward/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 865af9c..f18034e 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -752,7 +752,7 @@ def broadcast_and_apply(  # noqa: C901
                     if mask is None:
                         mask = m
                     else:
-                        nplike.bitwise_or(mask, m, out=mask)
+                        mask = nplike.bitwise_or(mask, m)
 
             nextmask = ak.layout.Index8(mask.view(np.int8))
             index = nplike.full(len(mask), -1, dtype=np.int64)
-- 
2.43.0


From ef86fce8a1892efe6c9694dcf23d5dab652c4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:18 +0000
Subject: [PATCH 39/55] fix: padding an empty ListArray reads no bounds

---
 src/libawkward/array/ListArray.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 20a3c2f..06845b7 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1359,13 +1359,15 @@ namespace awkward {
     }
     else if (posaxis == depth + 1) {
       int64_t min = target;
-      struct Error err1 = kernel::ListArray_min_range<T>(
-        kernel::lib::cpu,   // DERIVE
-        &min,
-        starts_.data(),
-        stops_.data(),
-        starts_.length());
-      util::handle_error(err1, classname(), identities_.get());
+      if (starts_.length() != 0) {
+        struct Error err1 = kernel::ListArray_min_range<T>(
+          kernel::lib::cpu,   // DERIVE
+          &min,
+          starts_.data(),
+          stops_.data(),
+          starts_.length());
+        util::handle_error(err1, classname(), identities_.get());
+      }
       if (target < min) {
         return shallow_copy();
       }
-- 
2.43.0


From a5a7f06ce5655931519d0e0381a2fc251901008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:18 +0000
Subject: [PATCH 40/55] fix: argmin, argmax and max of complex numbers

---
 src/cpu-kernels/awkward_reduce_argmax_complex.cpp | 6 +++---
 src/cpu-kernels/awkward_reduce_argmin_complex.cpp | 6 +++---
 src/libawkward/Reducer.cpp                        | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
index 37069b7..e281bb7 100644
--- a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmax_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] > fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] > fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] > fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] > fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
diff --git a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
index 711c050..a106410 100644
--- a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmin_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] < fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] < fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] < fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] < fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
diff --git a/src/libawkward/Reducer.cpp b/src/libawkward/Reducer.cpp
index 637ba3f..33d25d1 100644
--- a/src/libawkward/Reducer.cpp
+++ b/src/libawkward/Reducer.cpp
@@ -2334,7 +2334,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<float>> ptr = kernel::malloc<std::complex<float>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<float>));
-    float initial = 0;
+    float initial = -std::numeric_limits<float>::infinity();
     if (has_initial_) {
       initial = (float)initial_f64_;
     }
@@ -2357,7 +2357,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<double>> ptr = kernel::malloc<std::complex<double>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<double>));
-    double initial = 0;
+    double initial = -std::numeric_limits<double>::infinity();
     if (has_initial_) {
       initial = (double)initial_f64_;
     }
-- 
2.43.0


From aaf23b256596fa02ecf8ddf9d43cb50332868691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:18 +0000
Subject: [PATCH 41/55] fix: nested slices with a new axis follow indexed
 arrays and stay in bounds

---
 kernel-specification.yml                 | 2 +-
 src/cpu-kernels/awkward_Index_carry.cpp  | 2 +-
 src/libawkward/Slice.cpp                 | 7 +++++++
 src/libawkward/array/BitMaskedArray.cpp  | 2 +-
 src/libawkward/array/ByteMaskedArray.cpp | 2 +-
 src/libawkward/array/IndexedArray.cpp    | 8 +++++++-
 src/libawkward/array/NumpyArray.cpp      | 5 +----
 7 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index c920c78..5b46413 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -6132,7 +6132,7 @@ kernels:
       def awkward_index_carry(toindex, fromindex, carry, lenfromindex, length):
           for i in range(length):
               j = carry[i]
-              if j > lenfromindex:
+              if j >= lenfromindex:
                   raise ValueError("index out of range")
               toindex[i] = fromindex[j]
     automatic-tests: true
diff --git a/src/cpu-kernels/awkward_Index_carry.cpp b/src/cpu-kernels/awkward_Index_carry.cpp
index 3b1dfc5..4a8b514 100644
--- a/src/cpu-kernels/awkward_Index_carry.cpp
+++ b/src/cpu-kernels/awkward_Index_carry.cpp
@@ -13,7 +13,7 @@ ERROR awkward_index_carry(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     T j = carry[i];
-    if (j > lenfromindex) {
+    if (j >= lenfromindex) {
       return failure("index out of range", kSliceNone, j, FILENAME(__LINE__));
     }
     toindex[i] = fromindex[(size_t)(j)];
diff --git a/src/libawkward/Slice.cpp b/src/libawkward/Slice.cpp
index 94c961b..956ee3b 100644
--- a/src/libawkward/Slice.cpp
+++ b/src/libawkward/Slice.cpp
@@ -670,6 +670,13 @@ namespace awkward {
   template <typename T>
   const SliceItemPtr
   SliceJaggedOf<T>::carry(const Index64& carry) const {
+    for (int64_t i = 0;  i < carry.length();  i++) {
+      if (carry.getitem_at_nowrap(i) >= offsets_.length() - 1) {
+        throw std::invalid_argument(
+          std::string("jagged slice is too short for the array")
+          + FILENAME(__LINE__));
+      }
+    }
     IndexOf<T> nextoffsets(carry.length() + 1);
 
     struct Error err1 = kernel::carry_SliceJagged_offsets<T>(
diff --git a/src/libawkward/array/BitMaskedArray.cpp b/src/libawkward/array/BitMaskedArray.cpp
index 9c20830..676b17e 100644
--- a/src/libawkward/array/BitMaskedArray.cpp
+++ b/src/libawkward/array/BitMaskedArray.cpp
@@ -1122,7 +1122,7 @@ namespace awkward {
 
   const SliceJagged64
   BitMaskedArray::varaxis_to_jagged(const SliceVarNewAxis& varnewaxis) const {
-    return content_.get()->varaxis_to_jagged(varnewaxis);
+    return toIndexedOptionArray64().get()->varaxis_to_jagged(varnewaxis);
   }
 
   const ContentPtr
diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index d2fdf98..12eebfd 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -1428,7 +1428,7 @@ namespace awkward {
 
   const SliceJagged64
   ByteMaskedArray::varaxis_to_jagged(const SliceVarNewAxis& varnewaxis) const {
-    return content_.get()->varaxis_to_jagged(varnewaxis);
+    return toIndexedOptionArray64().get()->varaxis_to_jagged(varnewaxis);
   }
 
   const ContentPtr
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index ce6bd3a..f05c737 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2685,7 +2685,13 @@ namespace awkward {
   template <typename T, bool ISOPTION>
   const SliceJagged64
   IndexedArrayOf<T, ISOPTION>::varaxis_to_jagged(const SliceVarNewAxis& varnewaxis) const {
-    return content_.get()->varaxis_to_jagged(varnewaxis);
+    ContentPtr next = project();
+    if (next.get()->length() != length()) {
+      throw std::invalid_argument(
+        std::string("cannot broadcast a nested slice over missing lists")
+        + FILENAME(__LINE__));
+    }
+    return next.get()->varaxis_to_jagged(varnewaxis);
   }
 
   template <typename T, bool ISOPTION>
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 3e86d45..7097994 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5101,10 +5101,7 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
     else {
-      throw std::runtime_error(
-        std::string("undefined operation: NumpyArray::varaxis_to_jagged("
-                    "varnewaxis) for ndim == ") + std::to_string(ndim())
-        + FILENAME(__LINE__));
+      return toRegularArray().get()->varaxis_to_jagged(varnewaxis);
     }
   }
 
-- 
2.43.0


From f23293a171682dbcc64868a25a7273b080c79034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:37 +0000
Subject: [PATCH 42/55] fix: copies of slices of NumPy arrays

---
 src/libawkward/array/NumpyArray.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 7097994..5510373 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1142,21 +1142,22 @@ namespace awkward {
     ssize_t byteoffset = byteoffset_;
     if (copyarrays) {
       NumpyArray tmp = contiguous();
+      shape = tmp.shape();
+      strides = tmp.strides();
       if (ptr_.get() != tmp.ptr().get()) {
         ptr = tmp.ptr();
-        shape = tmp.shape();
-        strides = tmp.strides();
         byteoffset = tmp.byteoffset();
       }
       else {
         ptr = std::shared_ptr<void>(
-          kernel::malloc<void>(ptr_lib_, bytelength()));
+          kernel::malloc<void>(ptr_lib_, tmp.bytelength()));
         struct Error err = kernel::NumpyArray_copy(
           kernel::lib::cpu,   // DERIVE
           reinterpret_cast<uint8_t*>(ptr.get()),
-          reinterpret_cast<uint8_t*>(data()),
-          bytelength());
+          reinterpret_cast<uint8_t*>(tmp.data()),
+          tmp.bytelength());
         util::handle_error(err, classname(), identities_.get());
+        byteoffset = 0;
       }
     }
     IdentitiesPtr identities = identities_;
-- 
2.43.0


From 5281910199201854a6137424f023702fb642d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:38 +0000
Subject: [PATCH 43/55] fix: flattening unions at different depths is refused

---
 src/libawkward/array/UnionArray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index ed6d301..8c23383 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -1564,6 +1564,12 @@ namespace awkward {
         offsetsptrs.push_back(offsets.ptr());
         offsetsraws.push_back(offsets.data());
         contents.push_back(pair.second);
+        if (contents.size() > 1  &&
+            has_offsets != (offsets.length() != 0)) {
+          throw std::invalid_argument(
+            std::string("cannot flatten the possibilities of a union at "
+                        "different depths") + FILENAME(__LINE__));
+        }
         has_offsets = (offsets.length() != 0);
       }
 
-- 
2.43.0


From f3707531149ddf277fcd8d7054c41ca7389b0c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:38 +0000
Subject: [PATCH 44/55] fix: padding records never makes them longer than their
 fields

---
 src/libawkward/array/RecordArray.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index a4ef5af..c78bec9 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1436,8 +1436,10 @@ namespace awkward {
     }
     else {
       ContentPtrVec contents;
+      int64_t length = length_;
       for (auto content : contents_) {
         contents.push_back(content.get()->rpad(target, posaxis, depth));
+        length = std::min(length, contents.back().get()->length());
       }
       if (contents.empty()) {
         return std::make_shared<RecordArray>(identities_,
@@ -1451,7 +1453,7 @@ namespace awkward {
                                              parameters_,
                                              contents,
                                              recordlookup_,
-                                             length_);
+                                             length);
       }
     }
   }
@@ -1466,9 +1468,11 @@ namespace awkward {
     }
     else {
       ContentPtrVec contents;
+      int64_t length = length_;
       for (auto content : contents_) {
         contents.push_back(
           content.get()->rpad_and_clip(target, posaxis, depth));
+        length = std::min(length, contents.back().get()->length());
       }
       if (contents.empty()) {
         return std::make_shared<RecordArray>(identities_,
@@ -1482,7 +1486,7 @@ namespace awkward {
                                              parameters_,
                                              contents,
                                              recordlookup_,
-                                             length_);
+                                             length);
       }
     }
   }
-- 
2.43.0


From 0812d96d1bf47463455eab2983086b256c4a6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:38 +0000
Subject: [PATCH 45/55] fix: virtual arrays end at their announced length,
 slices of them need not have the predicted form

---
 src/libawkward/virtual/ArrayGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/virtual/ArrayGenerator.cpp b/src/libawkward/virtual/ArrayGenerator.cpp
index eedb888..e6bb831 100644
--- a/src/libawkward/virtual/ArrayGenerator.cpp
+++ b/src/libawkward/virtual/ArrayGenerator.cpp
@@ -38,7 +38,9 @@ namespace awkward {
           std::to_string(length_) + std::string(" but generated ") +
           std::to_string(out.get()->length()) + FILENAME(__LINE__));
     }
+    // the form of a slice is only a prediction: slicing may simplify options
     if (form_.get() != nullptr  &&
+        dynamic_cast<SliceGenerator*>(this) == nullptr  &&
         !form_.get()->equal(out.get()->form(true), true, true, false, true)) {
       throw std::invalid_argument(
           std::string("generated array does not conform to expected form:\n\n")
@@ -48,6 +50,9 @@ namespace awkward {
     if (form_.get() == nullptr) {
       inferred_form_ = out.get()->form(true);
     }
+    if (length_ >= 0  &&  length_ < out.get()->length()) {
+      return out.get()->getitem_range_nowrap(0, length_);
+    }
     return out;
   }
 
-- 
2.43.0


From 1f04bec6a0bca22798fde43ca6df3035329e6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:38 +0000
Subject: [PATCH 46/55] fix: run_lengths of virtual arrays and of records, zip
 of lists of unions

---
 src/awkward/operations/structure.py | 53 +++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 5289567..7413ab2 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -365,9 +365,22 @@ def run_lengths(array, highlevel=True, behavior=None):
             return nextcontent, nextoffsets
 
     def getfunction(layout):
+        if isinstance(layout, ak._util.recordtypes) and any(
+            x.branch_depth == (False, 1) for x in layout.contents
+        ):
+            raise NotImplementedError(
+                "run_lengths on records of values that are not in lists"
+                + ak._util.exception_suffix(__file__)
+            )
+
         if layout.branch_depth == (False, 1):
-            if isinstance(layout, ak._util.indexedtypes):
-                layout = layout.project()
+            while isinstance(
+                layout, ak._util.indexedtypes + ak._util.virtualtypes
+            ):
+                if isinstance(layout, ak._util.virtualtypes):
+                    layout = layout.array
+                else:
+                    layout = layout.project()
 
             if (
                 layout.parameter("__array__") == "string"
@@ -387,8 +400,13 @@ def run_lengths(array, highlevel=True, behavior=None):
             return lambda: ak.layout.NumpyArray(nextcontent)
 
         elif layout.branch_depth == (False, 2):
-            if isinstance(layout, ak._util.indexedtypes):
-                layout = layout.project()
+            while isinstance(
+                layout, ak._util.indexedtypes + ak._util.virtualtypes
+            ):
+                if isinstance(layout, ak._util.virtualtypes):
+                    layout = layout.array
+                else:
+                    layout = layout.project()
 
             if not isinstance(layout, ak._util.listtypes):
                 raise NotImplementedError(
@@ -405,6 +423,9 @@ def run_lengths(array, highlevel=True, behavior=None):
                 offsets = nplike.asarray(listoffsetarray.offsets)
                 content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
+                if isinstance(content, ak._util.virtualtypes):
+                    content = content.array
+
                 if isinstance(content, ak._util.indexedtypes):
                     content = content.project()
 
@@ -419,8 +440,13 @@ def run_lengths(array, highlevel=True, behavior=None):
             offsets = nplike.asarray(listoffsetarray.offsets)
             content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
-            if isinstance(content, ak._util.indexedtypes):
-                content = content.project()
+            while isinstance(
+                content, ak._util.indexedtypes + ak._util.virtualtypes
+            ):
+                if isinstance(content, ak._util.virtualtypes):
+                    content = content.array
+                else:
+                    content = content.project()
 
             if not isinstance(content, (ak.layout.NumpyArray, ak.layout.EmptyArray)):
                 raise NotImplementedError(
@@ -628,8 +654,21 @@ def zip(
             parameters = dict(parameters)
         parameters["__record__"] = with_name
 
+    def is_list(x):
+        # lists of unions may have a purelist_depth of 1, too
+        while isinstance(x, ak._util.optiontypes + ak._util.indexedtypes):
+            x = x.content
+        if isinstance(x, ak._util.virtualtypes):
+            return is_list(x.array)
+        return isinstance(x, ak._util.listtypes) and x.parameter("__array__") not in (
+            "string",
+            "bytestring",
+        )
+
     def getfunction(inputs, depth):
-        if depth_limit == depth or all(x.purelist_depth == 1 for x in inputs):
+        if depth_limit == depth or all(
+            x.purelist_depth == 1 and not is_list(x) for x in inputs
+        ):
             return lambda: (
                 ak.layout.RecordArray(inputs, recordlookup, parameters=parameters),
             )
-- 
2.43.0


From c12752d6225d877b8478080286e6fdaf909f844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:39 +0000
Subject: [PATCH 47/55] fix: reducers of indexed lists do not add option types,
 nor nest them

---
 src/libawkward/array/ByteMaskedArray.cpp | 8 ++++----
 src/libawkward/array/IndexedArray.cpp    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 12eebfd..609d482 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -1231,10 +1231,10 @@ namespace awkward {
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          IndexedOptionArray64(Identities::none(),
+                               util::Parameters(),
+                               outindex,
+                               raw->content()).simplify_optiontype());
       }
       else {
         throw std::runtime_error(
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index f05c737..d869b58 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2284,10 +2284,10 @@ namespace awkward {
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          IndexedArrayOf<int64_t, ISOPTION>(Identities::none(),
+                                            util::Parameters(),
+                                            outindex,
+                                            raw->content()).simplify_optiontype());
       }
       else {
         throw std::runtime_error(
-- 
2.43.0


From 171d490efd5b151db901c1f738616b461fcc5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 48/55] fix: to_arrow accepts arrays that are not contiguous

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 06081f5..619491e 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2011,7 +2011,7 @@ def to_arrow(
 
     def recurse(layout, mask, is_option):
         if isinstance(layout, ak.layout.NumpyArray):
-            numpy_arr = numpy.asarray(layout)
+            numpy_arr = numpy.ascontiguousarray(layout)
             length = len(numpy_arr)
             arrow_type = pyarrow.from_numpy_dtype(numpy_arr.dtype)
 
-- 
2.43.0


From 6c9a16a245f05d5e682f8bde51a10f158df714cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 49/55] fix: to_arrow keeps missing values around virtual
 arrays

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 619491e..b260445 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2484,7 +2484,7 @@ def to_arrow(
             return recurse(layout.content, None, True)
 
         elif isinstance(layout, (ak.layout.VirtualArray)):
-            return recurse(layout.array, None, False)
+            return recurse(layout.array, mask, is_option)
 
         elif isinstance(layout, (ak.partition.PartitionedArray)):
             return pyarrow.chunked_array(
-- 
2.43.0


From e9ef95588db46f6f99c2010942ce4d1a75682db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 50/55] fix: from_arrow keeps the nulls of a sliced dictionary
 array

---
 src/awkward/operations/convert.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index b260445..bbeac86 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2635,6 +2635,14 @@ def _from_arrow(
                     True,
                     parameters={"__array__": "categorical"},
                 ).simplify()
+            elif isinstance(index, ak.layout.ByteMaskedArray):
+                # a BitMaskedArray that has been sliced
+                return ak.layout.ByteMaskedArray(
+                    index.mask,
+                    out,
+                    index.valid_when,
+                    parameters={"__array__": "categorical"},
+                ).simplify()
             else:
                 return out
             # RETURNED because 'index' has already been offset-corrected.
-- 
2.43.0


From c2c29e46512a63737e09e07db047f44f2599cd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 51/55] fix: from_arrow applies the offset of a sliced struct
 array to its validity bitmap

---
 src/awkward/operations/convert.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index bbeac86..1501a6d 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2678,7 +2678,15 @@ def _from_arrow(
             out = ak.layout.RecordArray(child_arrays, keys, length=len(array))
             if mask is not None:
                 mask = ak.layout.IndexU8(numpy.frombuffer(mask, dtype=np.uint8))
-                return ak.layout.BitMaskedArray(mask, out, True, len(out), True)
+                if array.offset == 0:
+                    return ak.layout.BitMaskedArray(mask, out, True, len(out), True)
+                else:
+                    bytemask = numpy.unpackbits(
+                        numpy.asarray(mask), bitorder="little"
+                    )[array.offset : array.offset + len(array)]
+                    return ak.layout.ByteMaskedArray(
+                        ak.layout.Index8(bytemask.view(np.int8)), out, True
+                    )
             else:
                 return ak.layout.UnmaskedArray(out)
             # RETURNED because each field has already been offset-corrected.
-- 
2.43.0


From 1778297f4034aa479dc195756d3934d2060ef124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 52/55] fix: from_arrow accepts buffers that are longer than
 the array

---
 src/awkward/operations/convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 1501a6d..54cfb9e 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2854,7 +2854,9 @@ def _from_arrow(
                 data = numpy.frombuffer(data, dtype=np.int32).astype(np.int64)
             if dt is None:
                 dt = tpe.to_pandas_dtype()
-            out = ak.layout.NumpyArray(numpy.frombuffer(data, dtype=dt))
+            out = ak.layout.NumpyArray(
+                numpy.frombuffer(data, dtype=dt, count=array.offset + len(array))
+            )
             # No return yet!
 
         else:
@@ -2863,6 +2865,9 @@ def _from_arrow(
                 + ak._util.exception_suffix(__file__)
             )
 
+        # Buffers may be longer than the array (and longer than its validity bitmap).
+        out = out[: array.offset + len(array)]
+
         # All 'no return yet' cases need to become option-type (even if the UnmaskedArray
         # is just going to get stripped off in the recursive step that calls this one).
         if mask is not None:
-- 
2.43.0


From 6d4bb3fa47cd5de3f909110602e4f38b35b8789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 53/55] fix: from_arrow and from_parquet accept arrays without
 any rows

---
 src/awkward/operations/convert.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 54cfb9e..b31d13a 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2896,7 +2896,10 @@ def _from_arrow(
             layouts = [handle_arrow(x) for x in obj.chunks if len(x) > 0]
             if all(isinstance(x, ak.layout.UnmaskedArray) for x in layouts):
                 layouts = [x.content for x in layouts]
-            if len(layouts) == 1:
+            if len(layouts) == 0:
+                # zero-length array with the right type
+                return handle_arrow(pyarrow.array([], obj.type))
+            elif len(layouts) == 1:
                 return layouts[0]
             else:
                 return ak.operations.structure.concatenate(layouts, highlevel=False)
@@ -2919,7 +2922,12 @@ def _from_arrow(
             batches = obj.combine_chunks().to_batches()
             if len(batches) == 0:
                 # zero-length array with the right type
-                return from_buffers(_parquet_schema_to_form(obj.schema), 0, {})
+                return handle_arrow(
+                    pyarrow.RecordBatch.from_arrays(
+                        [pyarrow.array([], field.type) for field in obj.schema],
+                        schema=obj.schema,
+                    )
+                )
             elif len(batches) == 1:
                 return handle_arrow(batches[0])
             else:
@@ -2931,14 +2939,15 @@ def _from_arrow(
             and isinstance(obj, Sized)
             and len(obj) > 0
             and all(isinstance(x, pyarrow.lib.RecordBatch) for x in obj)
-            and any(len(x) > 0 for x in obj)
         ):
             chunks = []
             for batch in obj:
                 chunk = handle_arrow(batch)
                 if len(chunk) > 0:
                     chunks.append(chunk)
-            if len(chunks) == 1:
+            if len(chunks) == 0:
+                return handle_arrow(obj[0])
+            elif len(chunks) == 1:
                 return chunks[0]
             else:
                 return ak.operations.structure.concatenate(chunks, highlevel=False)
@@ -3980,6 +3989,8 @@ def from_parquet(
 
     else:
         batches = dataset.read_row_group_batches()
+        if len(batches) == 0:
+            batches = dataset.schema.empty_table()
         out = _from_arrow(batches, False, highlevel=False)
         assert isinstance(out, ak.layout.RecordArray) and not out.istuple
 
-- 
2.43.0


From 64e52a1103d14a4c397625af474ecd68af0a5e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:19 +0000
Subject: [PATCH 54/55] fix: combinations and cartesian do not put an indexed
 array inside an indexed array

---
 src/awkward/operations/structure.py | 2 +-
 src/libawkward/Content.cpp          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 7413ab2..578404c 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3366,7 +3366,7 @@ def cartesian(
             )
         ]
         outs = [
-            ak.layout.IndexedArray64(x, y)
+            ak.layout.IndexedArray64(x, y).simplify()
             for x, y in __builtins__["zip"](indexes, layouts)
         ]
 
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 1f724ee..7d183ef 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1357,11 +1357,11 @@ namespace awkward {
 
     ContentPtrVec contents;
     for (auto ptr : tocarry) {
-      contents.push_back(std::make_shared<IndexedArray64>(
+      contents.push_back(IndexedArray64(
         Identities::none(),
         util::Parameters(),
         Index64(ptr, 0, combinationslen, kernel::lib::cpu),   // DERIVE
-        shallow_copy()));
+        shallow_copy()).simplify_optiontype());
     }
     return std::make_shared<RecordArray>(Identities::none(),
                                          parameters,
-- 
2.43.0


From 96dc9ca1acb2044913b79543f479d4ba45331787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:42 +0000
Subject: [PATCH 55/55] fix: a field name that merely starts with a number is
 not a field index

---
 src/libawkward/util.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/util.cpp b/src/libawkward/util.cpp
index 0047d71..4204453 100644
--- a/src/libawkward/util.cpp
+++ b/src/libawkward/util.cpp
@@ -517,7 +517,11 @@ namespace awkward {
       }
       if (out == -1) {
         try {
-          out = (int64_t) std::stoi(key);
+          size_t numchars = 0;
+          out = (int64_t) std::stoi(key, &numchars);
+          if (numchars != key.size()) {
+            throw std::invalid_argument("not an integer");
+          }
         }
         catch (std::invalid_argument err) {
           throw std::invalid_argument(
-- 
2.43.0

