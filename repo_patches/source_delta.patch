From b031a847664a89a63579c91a4bb7be19394ba9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 01/74] fix: assigning an attribute must not copy the source's
 change listener

The templated assignment operator is never the copy assignment, so the
implicit one was used and copied the callback bound to the source's owner:
assigned attributes then called into another, possibly destroyed, object.
---
 src/core/common/xmmAttribute.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..6dce847 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
-- 
2.43.0


From e47a4fbc6e8a13272fd3ae59d5a079de0716b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 02/74] fix: element access of vector attributes is bounded by
 the value's size

The declared size is 0 for attributes without size checking, which made every
element of such an attribute unreadable (e.g. when writing the column names of
a model to JSON).
---
 src/core/common/xmmAttribute.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index 6dce847..2598503 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -361,7 +361,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     T at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
@@ -548,7 +548,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     std::string at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
-- 
2.43.0


From af209669a04524ec9de549dfca48c52ad8a820ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 03/74] fix: attribute limits refuse not-a-number values

---
 src/core/common/xmmAttribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.cpp b/src/core/common/xmmAttribute.cpp
index bdf3655..b6ca1e4 100644
--- a/src/core/common/xmmAttribute.cpp
+++ b/src/core/common/xmmAttribute.cpp
@@ -87,7 +87,7 @@ void xmm::checkLimits<long>(long const& value, long const& limit_min,
 template <>
 void xmm::checkLimits<float>(float const& value, float const& limit_min,
                              float const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
@@ -96,7 +96,7 @@ void xmm::checkLimits<float>(float const& value, float const& limit_min,
 template <>
 void xmm::checkLimits<double>(double const& value, double const& limit_min,
                               double const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
-- 
2.43.0


From d4989ba89a91d0943d079c9dbd155fd14d15145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 04/74] fix: changing the dimension of a phrase frees exactly
 the arrays it owns

A bimodal phrase connected to shared memory freed the user's output buffer,
an owning one leaked its output array, and arrays were released with the
scalar delete.
---
 src/core/trainingset/xmmPhrase.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..b92c03e 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -564,15 +564,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
+            if (bimodal_) delete[] data_[1];
         }
         data_[0] = nullptr;
-        if (bimodal_) {
-            if (own_memory_) {
-                data_[1] = nullptr;
-            }
-            delete data_[1];
-        }
+        if (bimodal_) data_[1] = nullptr;
         column_names.resize(dimension.get());
     }
     if (attr_pointer == &dimension)
-- 
2.43.0


From 4a989879deeb4c2643c4679aaa7b54165a637da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 05/74] fix: copying or assigning empty and shared-memory
 phrases

The data arrays of the copy were left uninitialised when the source was empty
(wild delete on destruction), and copying or assigning a shared-memory phrase
wrote through an unallocated array.
---
 src/core/trainingset/xmmPhrase.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index b92c03e..1f7f13e 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
@@ -162,12 +164,12 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
                 } catch (std::exception& e) {
                 }
             }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
         }
+        try {
+            delete[] data_;
+        } catch (std::exception& e) {
+        }
+        data_ = NULL;
         own_memory_ = src.own_memory_;
         bimodal_ = src.bimodal_;
         empty_ = src.empty_;
@@ -180,8 +182,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         column_names = src.column_names;
         label = src.label;
 
+        data_ = new float*[bimodal_ ? 2 : 1];
+        data_[0] = NULL;
+        if (bimodal_) data_[1] = NULL;
         if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
             if (max_length_ > 0) {
                 unsigned int modality_dim =
                     bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From 20565376f6b97f9c745ab025adb399da14673fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 06/74] fix: a phrase without frames reports that it is empty

Clearing one modality of a unimodal phrase, or connecting a buffer of length
0, left the phrase marked as non-empty (and clearOutput left a stale input
size).
---
 src/core/trainingset/xmmPhrase.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 1f7f13e..7040cff 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -294,7 +294,7 @@ void xmm::Phrase::connect(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     length_ = length;
-    empty_ = false;
+    empty_ = (length_ == 0);
 }
 
 void xmm::Phrase::connect(float* pointer_to_data_input,
@@ -309,7 +309,6 @@ void xmm::Phrase::connect(float* pointer_to_data_input,
     input_length_ = length;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
@@ -321,7 +320,6 @@ void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
@@ -333,7 +331,6 @@ void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
     data_[1] = pointer_to_data;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::disconnect() {
@@ -432,7 +429,10 @@ void xmm::Phrase::clear() {
 void xmm::Phrase::clearInput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        length_ = 0;
+        empty_ = true;
+    }
     input_length_ = 0;
     trim();
 }
@@ -440,7 +440,11 @@ void xmm::Phrase::clearInput() {
 void xmm::Phrase::clearOutput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        length_ = 0;
+        input_length_ = 0;
+        empty_ = true;
+    }
     output_length_ = 0;
     trim();
 }
-- 
2.43.0


From 1a90c973bc10dcedd48c5d9834cab5661c9b6d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 07/74] fix: rescaling a bimodal phrase scales its output
 modality

The output array was indexed by absolute dimension: the output was not scaled
and memory past the current frame (and the array) was modified.
---
 src/core/trainingset/xmmPhrase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 7040cff..5987d01 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -529,8 +529,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
-- 
2.43.0


From e876eac226cbb0597e2595e7d4be71e7bde78681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 08/74] fix: refuse JSON phrases and sets with more column
 names than dimensions

The names were written past the end of the vector.
---
 src/core/trainingset/xmmPhrase.cpp      | 3 +++
 src/core/trainingset/xmmTrainingSet.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 5987d01..c520052 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -121,6 +121,9 @@ xmm::Phrase::Phrase(Json::Value const& root)
     if (bimodal_) data_[1] = NULL;
 
     column_names.resize(dimension.get(), "");
+    if (root["column_names"].size() > column_names.size())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     for (int i = 0; i < root["column_names"].size(); i++) {
         column_names[i] = root["column_names"].get(i, "").asString();
     }
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..fc24448 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -87,6 +87,9 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
+    if (root["column_names"].size() > tmpColNames.size())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     for (int i = 0; i < root["column_names"].size(); i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
     }
-- 
2.43.0


From 40fe3b47b0f187ade8e4afcc8eec73860823e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 09/74] fix: a unimodal phrase read from JSON has no output
 frames

Like the recorded phrase it was written from.
---
 src/core/trainingset/xmmPhrase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index c520052..d64cc3a 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -133,7 +133,7 @@ xmm::Phrase::Phrase(Json::Value const& root)
     length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
     max_length_ = length_;
     input_length_ = length_;
-    output_length_ = length_;
+    output_length_ = bimodal_ ? length_ : 0;
     empty_ = (length_ == 0 && input_length_ == 0 && output_length_ == 0);
 
     if (bimodal_) {
-- 
2.43.0


From 489e7c06af4e8ce9552f0bb350c294a836317b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 10/74] fix: assigning a phrase notifies its listeners of the
 new label

Assigning to (or reading from JSON into) a phrase of a training set left the
labels and class subsets of the set stale.
---
 src/core/trainingset/xmmPhrase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index d64cc3a..8bf263c 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -211,6 +211,8 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         dimension_input.onAttributeChange(this,
                                           &xmm::Phrase::onAttributeChange);
         label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
+        PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
+        events.notifyListeners(event);
     }
     return *this;
 }
-- 
2.43.0


From cd6e73c5e6867de182ea6520a9a369de4ee6256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 11/74] fix: the input dimension always leaves room for the
 output

The initial limit of a bimodal phrase or training set allowed an input
dimension equal to the total dimension, and reducing the dimension left the
input dimension above its limit: sizes of the output modality then wrapped
around.
---
 src/core/trainingset/xmmPhrase.cpp      |  7 +++++--
 src/core/trainingset/xmmTrainingSet.cpp | 10 +++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 8bf263c..381deed 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -47,7 +47,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
@@ -584,8 +584,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         if (bimodal_) data_[1] = nullptr;
         column_names.resize(dimension.get());
     }
-    if (attr_pointer == &dimension)
+    if (attr_pointer == &dimension && bimodal_) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1, true);
+    }
     if (attr_pointer == &label) {
         PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
         events.notifyListeners(event);
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index fc24448..22943c9 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -44,7 +44,7 @@ xmm::TrainingSet::TrainingSet(MemoryMode memoryMode,
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     column_names.resize(dimension.get());
 }
@@ -83,7 +83,7 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     bimodal_ = root.get("bimodal", false).asBool();
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
@@ -154,7 +154,11 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
             it->second.dimension.set(dimension.get(), true);
 
         column_names.resize(dimension.get());
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_) {
+            dimension_input.setLimitMax(dimension.get() - 1);
+            if (dimension_input.get() > dimension.get() - 1)
+                dimension_input.set(dimension.get() - 1, true);
+        }
     }
     if (attr_pointer == &dimension_input) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From 09db26b93a2f0251926f9a467cbc747912ec7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 12/74] fix: class subsets follow the dimension of their
 training set

The subsets were updated silently, so their input-dimension limit and column
names kept the old dimension, and later changes of the set threw midway.
---
 src/core/trainingset/xmmTrainingSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 22943c9..a45f3d5 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -151,7 +151,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension.set(dimension.get(), true);
+            it->second.dimension.set(dimension.get());
 
         column_names.resize(dimension.get());
         if (bimodal_) {
@@ -167,7 +167,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension_input.set(dimension_input.get(), true);
+            it->second.dimension_input.set(dimension_input.get());
     }
     if (attr_pointer == &column_names) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From 00d048d821310007373de3b7f2926fb79ed204dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 13/74] fix: copying a training set copies its phrases

The copy shared the phrases of the source and registered itself with them, so
edits showed through and the source called back into destroyed copies.
---
 src/core/trainingset/xmmTrainingSet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index a45f3d5..f6baf79 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
-- 
2.43.0


From 7ba2526d8a1d3da68caa528697b444d04dcd9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 14/74] fix: a training set stops listening to phrases it no
 longer contains

The listener was never removed: changing the label of a phrase held by the
user after it was removed from (or outlived) its training set called into the
set, possibly destroyed.
---
 src/core/trainingset/xmmTrainingSet.cpp | 27 ++++++++++++++++++++++---
 src/core/trainingset/xmmTrainingSet.hpp |  7 +++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index f6baf79..b1d8857 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -130,7 +130,11 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() {
+    for (auto &phrase : phrases_)
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+}
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -225,7 +229,18 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
     return phrases_.at(n);
 }
 
+void xmm::TrainingSet::detachPhrase(int phraseIndex) {
+    auto it = phrases_.find(phraseIndex);
+    if (it == phrases_.end()) return;
+    std::shared_ptr<Phrase> detached = it->second;
+    phrases_.erase(it);
+    for (auto &phrase : phrases_)
+        if (phrase.second == detached) return;
+    detached->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+}
+
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    detachPhrase(phraseIndex);
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -239,7 +254,9 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
+    std::shared_ptr<Phrase> copy = std::make_shared<Phrase>(phrase);
+    detachPhrase(phraseIndex);
+    phrases_[phraseIndex] = copy;
     phrases_[phraseIndex]->events.removeListeners();
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -248,6 +265,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    detachPhrase(phraseIndex);
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -255,7 +273,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex,
 }
 
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
-    phrases_.erase(phraseIndex);
+    detachPhrase(phraseIndex);
     update();
 }
 
@@ -276,6 +294,9 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 
 void xmm::TrainingSet::clear() {
     sub_training_sets_.clear();
+    for (auto &phrase : phrases_)
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
     phrases_.clear();
     labels_.clear();
 }
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index 6fa03c6..3680500 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -314,6 +314,13 @@ class TrainingSet : public Writable {
      */
     void onPhraseEvent(PhraseEvent const& e);
 
+    /**
+     @brief removes a phrase from the phrases map, and stops listening to it
+     (unless it is also stored at another index)
+     @param phraseIndex index of the phrase
+     */
+    void detachPhrase(int phraseIndex);
+
     /**
      @brief notification function called when a member attribute is changed
      */
-- 
2.43.0


From 233ced39f77500c87c44a1aee3eea5d81e46152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:28 +0000
Subject: [PATCH 15/74] fix: removing a class by a reference to its label reads
 freed memory

---
 src/core/trainingset/xmmTrainingSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index b1d8857..203c091 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -278,11 +278,13 @@ void xmm::TrainingSet::removePhrase(int phraseIndex) {
 }
 
 void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
+    // the label may belong to one of the objects removed below
+    const std::string removedLabel(label);
     bool contLoop(true);
     while (contLoop) {
         contLoop = false;
         for (auto &phrase : phrases_) {
-            if (phrase.second->label.get() == label) {
+            if (phrase.second->label.get() == removedLabel) {
                 removePhrase(phrase.first);
                 contLoop = true;
                 break;
-- 
2.43.0


From ed4c8236289227c88d1e3b90a772b1c1cab2c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 16/74] fix: the input dimension of shared parameters follows
 modality and dimension

---
 src/core/model/xmmModelSharedParameters.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..2f8196d 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -35,8 +35,8 @@
 xmm::SharedParameters::SharedParameters()
     : bimodal(false),
       dimension((bimodal.get()) ? 2 : 1, (bimodal.get()) ? 2 : 1),
-      dimension_input((bimodal.get()) ? 1 : 0, 0,
-                      (bimodal.get()) ? dimension.get() : 0),
+      dimension_input((bimodal.get()) ? 1 : 0, (bimodal.get()) ? 1 : 0,
+                      (bimodal.get()) ? dimension.get() - 1 : 0),
       em_algorithm_min_iterations(10, 1),
       em_algorithm_max_iterations(0),
       em_algorithm_percent_chg(0.01, 0.),
@@ -146,16 +146,20 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         if (bimodal.get()) {
             dimension.setLimitMin(2);
             if (dimension.get() < 2) dimension.set(2);
-            dimension_input.setLimitMin(1);
+            dimension_input.setLimits(1, dimension.get() - 1);
             if (dimension_input.get() < 1) dimension_input.set(1);
         } else {
             dimension.setLimitMin(1);
             if (dimension.get() < 1) dimension.set(1);
-            dimension_input.setLimitMax(0);
+            dimension_input.setLimits(0, 0);
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal.get()) {
+            dimension_input.setLimits(1, dimension.get() - 1);
+            if (dimension_input.get() > dimension.get() - 1)
+                dimension_input.set(dimension.get() - 1);
+        }
         column_names.resize(dimension.get());
     }
     attr_pointer->changed = false;
-- 
2.43.0


From 84e029dae86ba875a8c1801ecf77b95012452540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 17/74] fix: assigning HMM parameters assigns the hierarchical
 flag

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..e5bb122 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From 63d08c53621dffc4dbc9ee2a4f9fb9a3f53d70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 18/74] fix: shared parameters start with one column name per
 dimension

---
 src/core/model/xmmModelSharedParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 2f8196d..b8f903c 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -56,6 +56,7 @@ xmm::SharedParameters::SharedParameters()
         this, &xmm::SharedParameters::onAttributeChange);
     column_names.onAttributeChange(this,
                                    &xmm::SharedParameters::onAttributeChange);
+    column_names.resize(dimension.get());
 }
 
 xmm::SharedParameters::SharedParameters(SharedParameters const& src)
-- 
2.43.0


From a92894e7b1e58347ec5fb4b8b5db4ce3400c8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 19/74] fix: model parameters are read from JSON with double
 precision

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index b8f903c..f496e9a 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -96,7 +96,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index e5bb122..cbc058e 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
-- 
2.43.0


From 47efb1551149563a4b4e6c7fce801cc7d3b57be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 20/74] fix: out-of-range numbers and modes in JSON parameters
 are refused

---
 src/core/model/xmmModelConfiguration.hpp    | 16 ++++++++++++----
 src/core/model/xmmModelSharedParameters.cpp | 16 ++++++++--------
 src/models/gmm/xmmGmmParameters.cpp         |  4 ++--
 src/models/hmm/xmmHmmParameters.cpp         |  8 ++++----
 src/models/kmeans/xmmKMeansParameters.cpp   |  8 ++++----
 5 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/core/model/xmmModelConfiguration.hpp b/src/core/model/xmmModelConfiguration.hpp
index 6614fc8..deb2490 100644
--- a/src/core/model/xmmModelConfiguration.hpp
+++ b/src/core/model/xmmModelConfiguration.hpp
@@ -115,11 +115,19 @@ class Configuration : public ClassParameters<ModelType> {
      */
     explicit Configuration(Json::Value const& root) {
         ClassParameters<ModelType>::fromJson(root["default_parameters"]);
-        multithreading = static_cast<MultithreadingMode>(
-            root.get("multithreading", 0).asInt());
+        int mode = root.get("multithreading", 0).asInt();
+        if (mode < 0 || mode > static_cast<int>(MultithreadingMode::Background))
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "multithreading");
+        multithreading = static_cast<MultithreadingMode>(mode);
+        int estimator = root.get("multiClass_regression_estimator", 0).asInt();
+        if (estimator < 0 ||
+            estimator >
+                static_cast<int>(MultiClassRegressionEstimator::Mixture))
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "multiClass_regression_estimator");
         multiClass_regression_estimator =
-            static_cast<MultiClassRegressionEstimator>(
-                root.get("multiClass_regression_estimator", 0).asInt());
+            static_cast<MultiClassRegressionEstimator>(estimator);
         class_parameters_.clear();
         std::vector<std::string> members = root["class_parameters"].getMemberNames();
         for (auto label : members) {
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index f496e9a..407fbdd 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -88,16 +88,16 @@ xmm::SharedParameters::SharedParameters(SharedParameters const& src)
 xmm::SharedParameters::SharedParameters(Json::Value const& root)
     : SharedParameters() {
     bimodal.set(root.get("bimodal", false).asBool());
-    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asInt());
+    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asUInt());
     dimension_input.set(
-        root.get("dimension_input", bimodal.get() ? 1 : 0).asInt());
+        root.get("dimension_input", bimodal.get() ? 1 : 0).asUInt());
     em_algorithm_min_iterations.set(
-        root.get("em_algorithm_min_iterations", 10).asInt());
+        root.get("em_algorithm_min_iterations", 10).asUInt());
     em_algorithm_max_iterations.set(
-        root.get("em_algorithm_max_iterations", 0).asInt());
+        root.get("em_algorithm_max_iterations", 0).asUInt());
     em_algorithm_percent_chg.set(
         root.get("em_algorithm_percent_chg", 0.01).asDouble());
-    likelihood_window.set(root.get("likelihood_window", 1).asInt());
+    likelihood_window.set(root.get("likelihood_window", 1).asUInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
         tmpColNames[i] = root["column_names"].get(i, "").asString();
@@ -122,14 +122,14 @@ xmm::SharedParameters& xmm::SharedParameters::operator=(
 Json::Value xmm::SharedParameters::toJson() const {
     Json::Value root;
     root["bimodal"] = bimodal.get();
-    root["dimension"] = static_cast<int>(dimension.get());
-    root["dimension_input"] = static_cast<int>(dimension_input.get());
+    root["dimension"] = dimension.get();
+    root["dimension_input"] = dimension_input.get();
     for (int i = 0; i < column_names.size(); i++)
         root["column_names"][i] = column_names.at(i);
     root["em_algorithm_min_iterations"] = em_algorithm_min_iterations.get();
     root["em_algorithm_max_iterations"] = em_algorithm_max_iterations.get();
     root["em_algorithm_percent_chg"] = em_algorithm_percent_chg.get();
-    root["likelihood_window"] = static_cast<int>(likelihood_window.get());
+    root["likelihood_window"] = likelihood_window.get();
     return root;
 }
 
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index adf4c97..4047923 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -79,7 +79,7 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
     covariance_mode.onAttributeChange(
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
-    gaussians.set(root["gaussians"].asInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
@@ -109,7 +109,7 @@ xmm::ClassParameters<xmm::GMM>& xmm::ClassParameters<xmm::GMM>::operator=(
 
 Json::Value xmm::ClassParameters<xmm::GMM>::toJson() const {
     Json::Value root;
-    root["gaussians"] = static_cast<int>(gaussians.get());
+    root["gaussians"] = gaussians.get();
     root["relative_regularization"] = relative_regularization.get();
     root["absolute_regularization"] = absolute_regularization.get();
     root["covariance_mode"] = static_cast<int>(covariance_mode.get());
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index cbc058e..4f3eb6c 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -90,8 +90,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(ClassParameters<HMM> const& src)
 
 xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    states.set(root["states"].asInt());
-    gaussians.set(root["gaussians"].asInt());
+    states.set(root["states"].asUInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
@@ -137,8 +137,8 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
 
 Json::Value xmm::ClassParameters<xmm::HMM>::toJson() const {
     Json::Value root;
-    root["states"] = static_cast<int>(states.get());
-    root["gaussians"] = static_cast<int>(gaussians.get());
+    root["states"] = states.get();
+    root["gaussians"] = gaussians.get();
     root["relative_regularization"] = relative_regularization.get();
     root["absolute_regularization"] = absolute_regularization.get();
     root["covariance_mode"] = static_cast<int>(covariance_mode.get());
diff --git a/src/models/kmeans/xmmKMeansParameters.cpp b/src/models/kmeans/xmmKMeansParameters.cpp
index 9620d03..dd2076a 100644
--- a/src/models/kmeans/xmmKMeansParameters.cpp
+++ b/src/models/kmeans/xmmKMeansParameters.cpp
@@ -61,8 +61,8 @@ xmm::ClassParameters<xmm::KMeans>::ClassParameters(
 
 xmm::ClassParameters<xmm::KMeans>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    clusters.set(root["clusters"].asInt());
-    max_iterations.set(root["max_iterations"].asInt());
+    clusters.set(root["clusters"].asUInt());
+    max_iterations.set(root["max_iterations"].asUInt());
     relative_distance_threshold.set(
         root["relative_distance_threshold"].asFloat());
 }
@@ -86,8 +86,8 @@ xmm::ClassParameters<xmm::KMeans>& xmm::ClassParameters<xmm::KMeans>::operator=(
 
 Json::Value xmm::ClassParameters<xmm::KMeans>::toJson() const {
     Json::Value root;
-    root["clusters"] = static_cast<int>(clusters.get());
-    root["max_iterations"] = static_cast<int>(max_iterations.get());
+    root["clusters"] = clusters.get();
+    root["max_iterations"] = max_iterations.get();
     root["relative_distance_threshold"] = relative_distance_threshold.get();
     return root;
 }
-- 
2.43.0


From eaee13947444991287c218dd50abb0176da936be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 21/74] fix: the message of a JSON exception outlives the call
 that returns it

---
 src/core/common/xmmJson.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..4510a5c 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -154,6 +154,7 @@ class JsonException : public std::exception {
     JsonException(JsonErrorType errorType, std::string nodename = "")
         : errorType_(errorType) {
         nodename_.push_back(nodename);
+        buildMessage();
     }
 
     /**
@@ -164,6 +165,7 @@ class JsonException : public std::exception {
     explicit JsonException(JsonException const& src, std::string nodename)
         : errorType_(src.errorType_), nodename_(src.nodename_) {
         nodename_.push_back(nodename);
+        buildMessage();
     }
 
     /**
@@ -171,7 +173,9 @@ class JsonException : public std::exception {
      @param src Source exception
      */
     JsonException(JsonException const& src)
-        : errorType_(src.errorType_), nodename_(src.nodename_) {}
+        : errorType_(src.errorType_),
+          nodename_(src.nodename_),
+          message_(src.message_) {}
 
     /**
      @brief Assigment
@@ -181,6 +185,7 @@ class JsonException : public std::exception {
         if (this != &src) {
             errorType_ = src.errorType_;
             nodename_ = src.nodename_;
+            message_ = src.message_;
         }
         return *this;
     }
@@ -189,7 +194,13 @@ class JsonException : public std::exception {
      @brief Get exception message
      @return exception message
      */
-    virtual const char* what() const throw() {
+    virtual const char* what() const throw() { return message_.c_str(); }
+
+  private:
+    /**
+     @brief Builds the exception message
+     */
+    void buildMessage() {
         std::string message;
         switch (errorType_) {
             case JsonErrorType::JsonMissingNode:
@@ -211,10 +222,9 @@ class JsonException : public std::exception {
         message += " (root";
         for (auto& node : nodename_) message += " > " + node;
         message += ")";
-        return message.c_str();
+        message_ = message;
     }
 
-  private:
     /**
      @brief Type of Json Parsing Error
      */
@@ -224,6 +234,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Exception message
+     */
+    std::string message_;
 };
 
 /**
-- 
2.43.0


From ad63fc6a5b4df9903fac74b87cd0267d1bebcbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 22/74] fix: listeners can be added and removed while an event
 is being sent

---
 src/core/common/xmmEvents.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmEvents.hpp b/src/core/common/xmmEvents.hpp
index 6468eb7..44c0b11 100644
--- a/src/core/common/xmmEvents.hpp
+++ b/src/core/common/xmmEvents.hpp
@@ -97,8 +97,10 @@ class EventGenerator {
      @param e event
      */
     void notifyListeners(EventType& e) const {
-        for (auto& callback : callbacks_) {
-            callback.second(e);
+        // a callback may add or remove listeners
+        std::map<void*, EventCallBack> callbacks(callbacks_);
+        for (auto& callback : callbacks) {
+            if (callbacks_.count(callback.first) > 0) callback.second(e);
         }
     }
 
-- 
2.43.0


From ec045d449003ba11ec2c775abe0f56b7c69e197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:13 +0000
Subject: [PATCH 23/74] fix: setting the covariance mode a distribution already
 has keeps its covariance

---
 .../distributions/xmmGaussianDistribution.cpp | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..a3c11d9 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -143,21 +143,25 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     }
     if (attr_pointer == &covariance_mode) {
         if (covariance_mode.get() == CovarianceMode::Diagonal) {
-            std::vector<double> new_covariance(dimension.get());
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d] = covariance[d * dimension.get() + d];
+            if (covariance.size() == dimension.get() * dimension.get()) {
+                std::vector<double> new_covariance(dimension.get());
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d] = covariance[d * dimension.get() + d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get());
         } else if (covariance_mode.get() == CovarianceMode::Full) {
-            std::vector<double> new_covariance(
-                dimension.get() * dimension.get(), 0.0);
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d * dimension.get() + d] = covariance[d];
+            if (covariance.size() == dimension.get()) {
+                std::vector<double> new_covariance(
+                    dimension.get() * dimension.get(), 0.0);
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d * dimension.get() + d] = covariance[d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get() * dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get() *
-- 
2.43.0


From c82d8cee4c3deca4f77ee12d310f8071d113c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:16 +0000
Subject: [PATCH 24/74] fix: a distribution whose covariance cannot be inverted
 does not keep the previous inverse

---
 .../distributions/xmmGaussianDistribution.cpp     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index a3c11d9..7faad8f 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -167,9 +167,10 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
                 inverse_covariance_input_.resize(dimension_input.get() *
                                                  dimension_input.get());
         }
-        updateInverseCovariance();
-        if (bimodal_) {
-            updateOutputCovariance();
+        try {
+            updateInverseCovariance();
+        } catch (std::runtime_error const&) {
+            // not invertible: reported when a likelihood is requested
         }
     }
     attr_pointer->changed = false;
@@ -390,6 +391,8 @@ void xmm::GaussianDistribution::regularize(std::vector<double> regularization) {
 }
 
 void xmm::GaussianDistribution::updateInverseCovariance() {
+    covariance_determinant_ = 0.;
+    covariance_determinant_input_ = 0.;
     if (covariance_mode.get() == CovarianceMode::Full) {
         Matrix<double> cov_matrix(dimension.get(), dimension.get(), false);
 
@@ -427,11 +430,13 @@ void xmm::GaussianDistribution::updateInverseCovariance() {
         }
     } else  // DIAGONAL COVARIANCE
     {
-        covariance_determinant_ = 1.;
-        covariance_determinant_input_ = 1.;
         for (unsigned int d = 0; d < dimension.get(); ++d) {
             if (covariance[d] <= 0.0)
                 throw std::runtime_error("Non-invertible matrix");
+        }
+        covariance_determinant_ = 1.;
+        covariance_determinant_input_ = 1.;
+        for (unsigned int d = 0; d < dimension.get(); ++d) {
             inverse_covariance_[d] = 1. / covariance[d];
             covariance_determinant_ *= covariance[d];
             if (bimodal_ && d < dimension_input.get()) {
-- 
2.43.0


From a5b43d61a2b2f8d82e8be12c1f581a4546f959ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 25/74] fix: changing the dimensions of a distribution keeps
 them consistent

---
 .../distributions/xmmGaussianDistribution.cpp | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 7faad8f..4dccb1d 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -136,12 +136,27 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_) {
+            if (dimension_input.get() > dimension.get() - 1)
+                dimension_input.set(dimension.get() - 1, true);
+            dimension_input.setLimitMax(dimension.get() - 1);
+        }
     }
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
+        // the inverses have to be updated for the new dimensions
+        covariance_determinant_ = 0.;
+        covariance_determinant_input_ = 0.;
         allocate();
     }
     if (attr_pointer == &covariance_mode) {
+        unsigned int dimension_output =
+            dimension.get() - dimension_input.get();
+        if (bimodal_) {
+            output_covariance.resize(
+                covariance_mode.get() == CovarianceMode::Diagonal
+                    ? dimension_output
+                    : dimension_output * dimension_output);
+        }
         if (covariance_mode.get() == CovarianceMode::Diagonal) {
             if (covariance.size() == dimension.get() * dimension.get()) {
                 std::vector<double> new_covariance(dimension.get());
@@ -364,17 +379,23 @@ void xmm::GaussianDistribution::fromJson(Json::Value const& root) {
 
 #pragma mark Utilities
 void xmm::GaussianDistribution::allocate() {
+    unsigned int dimension_output = dimension.get() - dimension_input.get();
     mean.resize(dimension.get());
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance.resize(dimension.get() * dimension.get());
         inverse_covariance_.resize(dimension.get() * dimension.get());
-        if (bimodal_)
+        if (bimodal_) {
             inverse_covariance_input_.resize(dimension_input.get() *
                                              dimension_input.get());
+            output_covariance.resize(dimension_output * dimension_output);
+        }
     } else {
         covariance.resize(dimension.get());
         inverse_covariance_.resize(dimension.get());
-        if (bimodal_) inverse_covariance_input_.resize(dimension_input.get());
+        if (bimodal_) {
+            inverse_covariance_input_.resize(dimension_input.get());
+            output_covariance.resize(dimension_output);
+        }
     }
 }
 
-- 
2.43.0


From d807d557d5fc4a7d35c1d4afa9a30f645da3ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 26/74] fix: distributions are read from JSON in every
 covariance mode, with their limits

---
 .../distributions/xmmGaussianDistribution.cpp | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 4dccb1d..ccb9eb5 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -85,9 +85,20 @@ xmm::GaussianDistribution::GaussianDistribution(GaussianDistribution const& src)
 
 xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
     : covariance_determinant_(0.), covariance_determinant_input_(0.) {
+    if (!root.isObject())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError);
     bimodal_ = root.get("bimodal", false).asBool();
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    unsigned int dim = root.get("dimension", bimodal_ ? 2 : 1).asUInt();
+    if (!root["mean"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "mean");
+    if (root["mean"].size() != dim)
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "mean");
+    dimension.setLimitMin(bimodal_ ? 2 : 1);
+    dimension.set(dim);
+    dimension_input.setLimitMax(bimodal_ ? dim - 1 : 0);
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
     covariance_mode.set(
         static_cast<CovarianceMode>(root["covariance_mode"].asInt()));
 
@@ -95,17 +106,22 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
 
     json2vector(root["mean"], mean, dimension.get());
     json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(covariance.size()));
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(inverse_covariance_.size()));
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                static_cast<unsigned int>(inverse_covariance_input_.size()));
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    if (root.isMember("output_covariance"))
+        json2vector(root["output_covariance"], output_covariance,
+                    static_cast<unsigned int>(output_covariance.size()));
+    else if (bimodal_ && covariance_determinant_input_ != 0.)
+        updateOutputCovariance();
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From cb569870cfe15a88939918732905dcefd3204f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 27/74] fix: ellipses along an axis and nearly circular ones
 are converted without not-a-number values

---
 .../distributions/xmmGaussianDistribution.cpp | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ccb9eb5..6fed2a0 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -573,9 +573,9 @@ xmm::Ellipse xmm::GaussianDistribution::toEllipse(unsigned int dimension1,
 
     // Compute Eigen Values to get width, height and angle
     double trace = a + c;
-    double determinant = a * c - b * b;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double delta = sqrt((a - c) * (a - c) + 4 * b * b);
+    double eigenVal1 = 0.5 * (trace + delta);
+    double eigenVal2 = std::max(0.5 * (trace - delta), 0.0);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
     gaussian_ellipse.angle = atan(b / (eigenVal1 - c));
@@ -598,11 +598,12 @@ void xmm::GaussianDistribution::fromEllipse(Ellipse const& gaussian_ellipse,
     double eigenVal1 = gaussian_ellipse.width * gaussian_ellipse.width / 5.991;
     double eigenVal2 =
         gaussian_ellipse.height * gaussian_ellipse.height / 5.991;
-    double tantheta = std::tan(gaussian_ellipse.angle);
+    double costheta = std::cos(gaussian_ellipse.angle);
+    double sintheta = std::sin(gaussian_ellipse.angle);
     double a, b, c;
-    b = (eigenVal1 - eigenVal2) * tantheta / (tantheta * tantheta + 1.);
-    c = eigenVal1 - b / tantheta;
-    a = eigenVal2 + b / tantheta;
+    b = (eigenVal1 - eigenVal2) * sintheta * costheta;
+    c = eigenVal1 - (eigenVal1 - eigenVal2) * costheta * costheta;
+    a = eigenVal2 + (eigenVal1 - eigenVal2) * costheta * costheta;
 
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance[dimension1 * dimension.get() + dimension1] = a;
@@ -735,9 +736,9 @@ xmm::Ellipse xmm::covariance2ellipse(double c_xx, double c_xy, double c_yy) {
 
     // Compute Eigen Values to get width, height and angle
     double trace = c_xx + c_yy;
-    double determinant = c_xx * c_yy - c_xy * c_xy;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double delta = sqrt((c_xx - c_yy) * (c_xx - c_yy) + 4 * c_xy * c_xy);
+    double eigenVal1 = 0.5 * (trace + delta);
+    double eigenVal2 = std::max(0.5 * (trace - delta), 0.0);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
     gaussian_ellipse.angle = atan(c_xy / (eigenVal1 - c_yy));
-- 
2.43.0


From 092bfc635e3d30a565bfdbf988b6cb7b9dc05706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 28/74] fix: exchanging lines changes the sign of the
 determinant

---
 src/core/common/xmmMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..86d5966 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -300,6 +300,7 @@ class Matrix {
             // if found > Exchange lines
             if (i != k) {
                 mat.swap_lines(i, k);
+                *det = -*det;
             }
 
             new_mat._data = mat._data;
-- 
2.43.0


From b0d90e9b810ebae67c2d2a691c6686d275448638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 29/74] fix: the angle of an ellipse whose major axis is the
 second one

---
 src/core/distributions/xmmGaussianDistribution.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 6fed2a0..c43bb26 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -578,10 +578,7 @@ xmm::Ellipse xmm::GaussianDistribution::toEllipse(unsigned int dimension1,
     double eigenVal2 = std::max(0.5 * (trace - delta), 0.0);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(b / (eigenVal1 - c));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
-    }
+    gaussian_ellipse.angle = 0.5 * atan2(2 * b, a - c);
 
     return gaussian_ellipse;
 }
@@ -741,10 +738,7 @@ xmm::Ellipse xmm::covariance2ellipse(double c_xx, double c_xy, double c_yy) {
     double eigenVal2 = std::max(0.5 * (trace - delta), 0.0);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(c_xy / (eigenVal1 - c_yy));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
-    }
+    gaussian_ellipse.angle = 0.5 * atan2(2 * c_xy, c_xx - c_yy);
 
     return gaussian_ellipse;
 }
-- 
2.43.0


From 570297d645d08d8d7bfdcab739f1acbf42a47dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 30/74] fix: copied and loaded classes start with an empty
 likelihood window of the configured length

---
 src/core/model/xmmModelSingleClass.cpp |  4 ++++
 src/models/hmm/xmmHmmSingleClass.cpp   | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..3cc7b5f 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -62,6 +62,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
         throw std::runtime_error("Cannot copy: target model is still training");
     if (src.is_training_)
         throw std::runtime_error("Cannot copy: source model is still training");
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
@@ -78,6 +79,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
     }
     label = root["label"].asString();
     training_status.label = label;
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel& xmm::SingleClassProbabilisticModel::
@@ -94,6 +96,8 @@ operator=(SingleClassProbabilisticModel const& src) {
         shared_parameters = src.shared_parameters;
         is_training_ = false;
         cancel_training_ = false;
+        likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
+        likelihood_buffer_.clear();
     }
     return *this;
 };
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..87835d5 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -33,7 +33,9 @@
 #include "xmmHmmSingleClass.hpp"
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p)
-    : SingleClassProbabilisticModel(p), is_hierarchical_(true) {}
+    : SingleClassProbabilisticModel(p),
+      forward_initialized_(false),
+      is_hierarchical_(true) {}
 
 xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
     : SingleClassProbabilisticModel(src),
@@ -41,17 +43,21 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
       states(src.states),
       prior(src.prior),
       transition(src.transition),
+      forward_initialized_(false),
       is_hierarchical_(src.is_hierarchical_),
       exit_probabilities_(src.exit_probabilities_) {
     alpha.resize(parameters.states.get());
     previous_alpha_.resize(parameters.states.get());
     beta_.resize(parameters.states.get());
     previous_beta_.resize(parameters.states.get());
+    for (int i = 0; i < 3; i++) alpha_h[i].assign(parameters.states.get(), 0.0);
 }
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
-    : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
+    : SingleClassProbabilisticModel(p, root),
+      forward_initialized_(false),
+      is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
     allocate();
@@ -90,6 +96,9 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
         previous_alpha_.resize(parameters.states.get());
         beta_.resize(parameters.states.get());
         previous_beta_.resize(parameters.states.get());
+        forward_initialized_ = false;
+        for (int i = 0; i < 3; i++)
+            alpha_h[i].assign(parameters.states.get(), 0.0);
     }
     return *this;
 }
@@ -110,6 +119,7 @@ void xmm::SingleClassHMM::allocate() {
     previous_alpha_.resize(numStates);
     beta_.resize(numStates);
     previous_beta_.resize(numStates);
+    for (int i = 0; i < 3; i++) alpha_h[i].assign(numStates, 0.0);
     SingleClassGMM tmpGMM(shared_parameters);
     tmpGMM.parameters.gaussians.set(parameters.gaussians.get());
     tmpGMM.parameters.relative_regularization.set(
-- 
2.43.0


From 6a4a6f74b99b318f49aa4a8e2c921b1f6dc7b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 31/74] fix: the forward algorithm of an ergodic HMM allocates
 its state probabilities

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 87835d5..3f18124 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -350,6 +350,7 @@ double xmm::SingleClassHMM::forward_init(const float* observation,
     unsigned int numStates = parameters.states.get();
 
     double norm_const(0.);
+    alpha.assign(numStates, 0.0);
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
         for (int i = 0; i < numStates; i++) {
             if (shared_parameters->bimodal.get()) {
@@ -365,7 +366,6 @@ double xmm::SingleClassHMM::forward_init(const float* observation,
             norm_const += alpha[i];
         }
     } else {
-        alpha.assign(numStates, 0.0);
         if (shared_parameters->bimodal.get()) {
             if (observation_output)
                 alpha[0] =
-- 
2.43.0


From 74b530dae39197da5dded9ed8a9f66958e9183ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 32/74] fix: estimating the prior of an ergodic HMM skips
 phrases without frames

---
 src/models/hmm/xmmHmmSingleClass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 3f18124..ec2ef0c 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -990,7 +990,8 @@ void xmm::SingleClassHMM::baumWelch_estimatePrior(TrainingSet* trainingSet) {
     double sumprior = 0.;
     int phraseIndex(0);
     for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); it++) {
-        for (int i = 0; i < numStates; i++) {
+        // phrases without frames have no initial state
+        for (int i = 0; it->second->size() > 0 && i < numStates; i++) {
             prior[i] += gamma_sequence_[phraseIndex][i];
             sumprior += gamma_sequence_[phraseIndex][i];
         }
-- 
2.43.0


From e8431134939df84ec911e8850367717f8dd22a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:49 +0000
Subject: [PATCH 33/74] fix: the regression window of an HMM with a single
 state contains that state

---
 src/models/hmm/xmmHmmSingleClass.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index ec2ef0c..68d5215 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1189,10 +1189,11 @@ void xmm::SingleClassHMM::updateAlphaWindow() {
     }
 
     // Compute Window
-    window_minindex_ = (static_cast<int>(results.likeliest_state) -
-                        static_cast<int>(numStates) / 2);
-    window_maxindex_ = (static_cast<int>(results.likeliest_state) +
-                        static_cast<int>(numStates) / 2);
+    int half_window = std::max(static_cast<int>(numStates) / 2, 1);
+    window_minindex_ =
+        (static_cast<int>(results.likeliest_state) - half_window);
+    window_maxindex_ =
+        (static_cast<int>(results.likeliest_state) + half_window);
     window_minindex_ = (window_minindex_ >= 0) ? window_minindex_ : 0;
     window_maxindex_ = (window_maxindex_ <= static_cast<int>(numStates))
                            ? window_maxindex_
-- 
2.43.0


From ee6cbac6422978fcef921f330e16b6375de15837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 34/74] fix: the time progression of a class stays within its
 bounds in hierarchical decoding

---
 src/models/hmm/xmmHmmSingleClass.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 68d5215..140bc43 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1305,10 +1305,10 @@ void xmm::SingleClassHMM::updateResults() {
 
     results.progress = 0.0;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
+        if (window_normalization_constant_ <= 0.0) break;
         if (is_hierarchical_)
-            results.progress +=
-                (alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i]) * i /
-                window_normalization_constant_;
+            results.progress += (alpha_h[0][i] + alpha_h[1][i]) * i /
+                                window_normalization_constant_;
         else
             results.progress += alpha[i] * i / window_normalization_constant_;
     }
-- 
2.43.0


From 8d14bbd1e1526d8cb0d393339ec61cdd8b05999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 35/74] fix: the full regression estimator is normalized in
 hierarchical decoding

---
 src/models/hmm/xmmHmmSingleClass.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 140bc43..9d2235d 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1236,10 +1236,13 @@ void xmm::SingleClassHMM::regression(
                                   HMM::RegressionEstimator::Full)
                                      ? parameters.states.get()
                                      : window_maxindex_;
-    double normalization_constant = (parameters.regression_estimator.get() ==
-                                     HMM::RegressionEstimator::Full)
-                                        ? 1.0
-                                        : window_normalization_constant_;
+    double normalization_constant = window_normalization_constant_;
+    if (parameters.regression_estimator.get() ==
+        HMM::RegressionEstimator::Full) {
+        normalization_constant = is_hierarchical_ ? 0.0 : 1.0;
+        for (unsigned int i = 0; is_hierarchical_ && i < clip_max_state; ++i)
+            normalization_constant += alpha_h[0][i] + alpha_h[1][i];
+    }
 
     if (normalization_constant <= 0.0) normalization_constant = 1.;
 
-- 
2.43.0


From 0142c7c03782c7af62d0106d08d5df204a2aeda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:27 +0000
Subject: [PATCH 36/74] fix: the likeliest-state regression also gives the
 covariance of the output

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 9d2235d..905dc6e 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1225,6 +1225,8 @@ void xmm::SingleClassHMM::regression(
         states[results.likeliest_state].regression(observation_input);
         results.output_values =
             states[results.likeliest_state].results.output_values;
+        results.output_covariance =
+            states[results.likeliest_state].results.output_covariance;
         return;
     }
 
-- 
2.43.0


From ed97f8e4299caf0fd0e21b170654dca5dbb3668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:15 +0000
Subject: [PATCH 37/74] fix: the exit points of a class follow its training
 only

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 9 ---------
 src/models/hmm/xmmHierarchicalHmm.hpp | 5 -----
 src/models/hmm/xmmHmmSingleClass.cpp  | 7 ++-----
 3 files changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..a7d73a5 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -113,9 +113,6 @@ void xmm::HierarchicalHMM::updateTransitionParameters() {
 
     updatePrior();
     updateTransition();
-
-    updateExitProbabilities();  // Update exit probabilities of Submodels
-                                // (signal level)
 }
 
 void xmm::HierarchicalHMM::updatePrior() {
@@ -132,12 +129,6 @@ void xmm::HierarchicalHMM::updateTransition() {
     }
 }
 
-void xmm::HierarchicalHMM::updateExitProbabilities() {
-    for (auto &model : models) {
-        model.second.updateExitProbabilities();
-    }
-}
-
 void xmm::HierarchicalHMM::addModelForClass(std::string const &label) {
     Model<SingleClassHMM, HMM>::addModelForClass(label);
     updateTransitionParameters();
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 849850b..4f7a482 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -237,11 +237,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     void updateTransition();
 
-    /**
-     @brief Update exit probabilities of each sub-model
-     */
-    void updateExitProbabilities();
-
     virtual void addModelForClass(std::string const& label);
 
     /**
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 905dc6e..a4968be 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -131,7 +131,7 @@ void xmm::SingleClassHMM::allocate() {
     for (auto& state : states) {
         state.allocate();
     }
-    if (is_hierarchical_) updateExitProbabilities(NULL);
+    updateExitProbabilities(NULL);
 }
 
 void xmm::SingleClassHMM::initParametersToDefault(
@@ -1369,11 +1369,8 @@ void xmm::SingleClassHMM::fromJson(Json::Value const& root) {
 void xmm::SingleClassHMM::updateExitProbabilities(float* exitProbabilities) {
     unsigned int numStates = parameters.states.get();
 
-    if (!is_hierarchical_)
-        throw std::runtime_error(
-            "Model is Not hierarchical: method cannot be used");
     if (exitProbabilities == NULL) {
-        exit_probabilities_.resize(numStates, 0.0);
+        exit_probabilities_.assign(numStates, 0.0);
         exit_probabilities_[numStates - 1] =
             DEFAULT_EXITPROBABILITY_LAST_STATE();
     } else {
-- 
2.43.0


From 4452ac5b40d910ca85a1c474a80101346ef931f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 38/74] fix: exit probabilities are checked, and a state that
 always exits is decoded

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 14 ++++++++++++--
 src/models/hmm/xmmHmmSingleClass.cpp  |  4 +++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index a7d73a5..f781d07 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -84,6 +84,10 @@ void xmm::HierarchicalHMM::clear() {
 
 void xmm::HierarchicalHMM::addExitPoint(int state, float proba) {
     // prevent_attribute_change();
+    for (auto &model : models) {
+        if (state < 0 || state >= model.second.parameters.states.get())
+            throw std::out_of_range("State index out of bounds");
+    }
     for (auto &model : models) {
         model.second.addExitPoint(state, proba);
     }
@@ -222,6 +226,8 @@ void xmm::HierarchicalHMM::forward_update(
             HMM::TransitionMode::Ergodic) {
             for (int k = 0; k < N; ++k) {
                 for (unsigned int j = 0; j < N; ++j) {
+                    // all the probability of such a state has left the class
+                    if (dstModel.second.exit_probabilities_[j] >= 1) continue;
                     front[k] += dstModel.second.transition[j * N + k] /
                                 (1 - dstModel.second.exit_probabilities_[j]) *
                                 dstModel.second.alpha_h[0][j];
@@ -252,10 +258,14 @@ void xmm::HierarchicalHMM::forward_update(
 
             // k>0: rest of the primitive
             for (int k = 1; k < N; ++k) {
-                front[k] += dstModel.second.transition[k * 2] /
+                if (dstModel.second.exit_probabilities_[k] < 1)
+                    front[k] +=
+                        dstModel.second.transition[k * 2] /
                             (1 - dstModel.second.exit_probabilities_[k]) *
                             dstModel.second.alpha_h[0][k];
-                front[k] += dstModel.second.transition[(k - 1) * 2 + 1] /
+                if (dstModel.second.exit_probabilities_[k - 1] < 1)
+                    front[k] +=
+                        dstModel.second.transition[(k - 1) * 2 + 1] /
                             (1 - dstModel.second.exit_probabilities_[k - 1]) *
                             dstModel.second.alpha_h[0][k - 1];
             }
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index a4968be..5502d70 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1388,8 +1388,10 @@ void xmm::SingleClassHMM::addExitPoint(int stateIndex, float proba) {
     if (!is_hierarchical_)
         throw std::runtime_error(
             "Model is Not hierarchical: method cannot be used");
-    if (stateIndex >= parameters.states.get())
+    if (stateIndex < 0 || stateIndex >= exit_probabilities_.size())
         throw std::out_of_range("State index out of bounds");
+    if (!(proba >= 0. && proba <= 1.))
+        throw std::out_of_range("Exit probabilities must be in [0, 1]");
     exit_probabilities_[stateIndex] = proba;
 }
 
-- 
2.43.0


From 9c8d44ce2939f950304b0d731232295e8e3063d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 39/74] fix: the first step of hierarchical decoding weighs
 ergodic classes by their prior and sets all results

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f781d07..e9a72a9 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -149,20 +149,24 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
         for (int i = 0; i < 3; i++) {
             model.second.alpha_h[i].assign(N, 0.0);
         }
+        // no primitive can be left before its first observation
+        model.second.results.exit_likelihood = 0.0;
+        model.second.results.exit_ratio = 0.0;
 
         // Compute Emission probability and initialize on the first state of
         // the
         // primitive
         if (model.second.parameters.transition_mode.get() ==
             HMM::TransitionMode::Ergodic) {
+            model.second.results.instant_likelihood = 0.0;
             for (int i = 0; i < model.second.parameters.states.get(); i++) {
                 if (shared_parameters->bimodal.get()) {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb_input(&observation[0]);
                 } else {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb(&observation[0]);
                 }
                 model.second.results.instant_likelihood +=
@@ -311,8 +315,10 @@ void xmm::HierarchicalHMM::forward_update(
         }
 
         dstModel.second.results.exit_ratio =
-            dstModel.second.results.exit_likelihood /
-            dstModel.second.results.instant_likelihood;
+            dstModel.second.results.instant_likelihood > 0.0
+                ? dstModel.second.results.exit_likelihood /
+                      dstModel.second.results.instant_likelihood
+                : 0.0;
 
         dst_model_index++;
     }
-- 
2.43.0


From d8e44c19b9af56089604ad8f8cba470eedd9f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 40/74] fix: transitions of an ergodic state that is never left
 are numbers

---
 src/models/hmm/xmmHmmSingleClass.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 5502d70..4ce890c 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -330,8 +330,13 @@ void xmm::SingleClassHMM::normalizeTransitions() {
             norm_transition = 0.;
             for (int j = 0; j < numStates; j++)
                 norm_transition += transition[i * numStates + j];
-            for (int j = 0; j < numStates; j++)
-                transition[i * numStates + j] /= norm_transition;
+            for (int j = 0; j < numStates; j++) {
+                // a state that is never left has no estimate
+                if (norm_transition > 0.)
+                    transition[i * numStates + j] /= norm_transition;
+                else
+                    transition[i * numStates + j] = 1. / double(numStates);
+            }
         }
         for (int i = 0; i < numStates; i++) prior[i] /= norm_prior;
     } else {
-- 
2.43.0


From eb0e8a5c3d77f246cd017310d06eaae90b9f45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 41/74] fix: each observation enters the likelihood window once
 in non-hierarchical decoding

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index e9a72a9..7779bb9 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -409,8 +409,9 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         }
     }
 
-    // Compute time progression
+    // Compute time progression (single classes update theirs when filtering)
     for (auto &model : models) {
+        if (!configuration.hierarchical.get()) break;
         model.second.updateAlphaWindow();
         model.second.updateResults();
     }
-- 
2.43.0


From d629b8a203e0cfaa308a178ce74f30b2d86a7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:08 +0000
Subject: [PATCH 42/74] fix: changing the decoding mode of a HMM resets the
 filtering

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 7779bb9..c0d6d30 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -395,6 +395,13 @@ void xmm::HierarchicalHMM::reset() {
 
 void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
     checkTraining();
+    for (auto &model : models) {
+        // the decoding mode has changed since the last reset
+        if (model.second.is_hierarchical_ != configuration.hierarchical.get()) {
+            reset();
+            break;
+        }
+    }
     if (configuration.hierarchical.get()) {
         if (forward_initialized_) {
             this->forward_update(observation);
-- 
2.43.0


From 2ab441c60cecc1c114d4ddb06b45f4b5895ac70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 43/74] fix: filtering refuses observations that are too short,
 and does nothing without classes

---
 src/core/model/xmmModel.hpp           | 6 ++++++
 src/models/gmm/xmmGmm.cpp             | 3 ++-
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 ++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..b24bec4 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -417,6 +417,12 @@ class Model : public Writable {
      */
     virtual void filter(std::vector<float> const& observation) {
         checkTraining();
+        if (size() > 0 &&
+            observation.size() < (shared_parameters->bimodal.get()
+                                      ? shared_parameters->dimension_input.get()
+                                      : shared_parameters->dimension.get()))
+            throw std::out_of_range(
+                "The observation does not match the dimension of the model");
         // checkConfigurationChanges();
     }
 
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67c69dc..fcf44dc 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -106,7 +106,8 @@ void xmm::GMM::reset() {
 }
 
 void xmm::GMM::filter(std::vector<float> const& observation) {
-    checkTraining();
+    Model<SingleClassGMM, GMM>::filter(observation);
+    if (models.empty()) return;
     int i(0);
     for (auto& model : models) {
         results.instant_likelihoods[i] = model.second.filter(observation);
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index c0d6d30..f32a096 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -394,7 +394,8 @@ void xmm::HierarchicalHMM::reset() {
 }
 
 void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
-    checkTraining();
+    Model<SingleClassHMM, HMM>::filter(observation);
+    if (models.empty()) return;
     for (auto &model : models) {
         // the decoding mode has changed since the last reset
         if (model.second.is_hierarchical_ != configuration.hierarchical.get()) {
-- 
2.43.0


From 6b15bea8657d1c5ae154942bcac154f556cca821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:22 +0000
Subject: [PATCH 44/74] fix: regression combines classes with different
 covariance modes

---
 src/models/gmm/xmmGmm.cpp             | 17 ++++++++++++-----
 src/models/hmm/xmmHierarchicalHmm.cpp | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index fcf44dc..48004ff 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -143,19 +143,26 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
+                    // classes can have their own covariance mode
+                    bool class_full =
+                        model.second.parameters.covariance_mode.get() ==
+                        GaussianDistribution::CovarianceMode::Full;
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
-                        for (int d2 = 0; d2 < dimension_output; d2++)
+                        for (int d2 = 0; d2 < dimension_output; d2++) {
+                            if (!class_full && d2 != d) continue;
                             results
                                 .output_covariance[d * dimension_output + d2] +=
                                 results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
+                                model.second.results.output_covariance
+                                    [class_full ? d * dimension_output + d2
+                                                : d];
+                        }
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [class_full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f32a096..62a559d 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -456,19 +456,26 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
 
+                    // classes can have their own covariance mode
+                    bool class_full =
+                        model.second.parameters.covariance_mode.get() ==
+                        GaussianDistribution::CovarianceMode::Full;
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
-                        for (int d2 = 0; d2 < dimension_output; d2++)
+                        for (int d2 = 0; d2 < dimension_output; d2++) {
+                            if (!class_full && d2 != d) continue;
                             results
                                 .output_covariance[d * dimension_output + d2] +=
                                 results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
+                                model.second.results.output_covariance
+                                    [class_full ? d * dimension_output + d2
+                                                : d];
+                        }
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [class_full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
-- 
2.43.0


From 2a676d605c247d34f9bd4d648d0b49691092d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 45/74] fix: normalized likelihoods are numbers when every
 class is impossible

---
 src/models/gmm/xmmGmm.cpp             | 6 +++++-
 src/models/hmm/xmmHierarchicalHmm.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 48004ff..953f5fa 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -77,7 +77,11 @@ void xmm::GMM::updateResults() {
     i = 0;
     for (auto it = this->models.begin(); it != this->models.end(); ++it, ++i) {
         results.instant_normalized_likelihoods[i] /= normconst_instant;
-        results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        // without any evidence, all classes are as likely
+        if (normconst_smoothed > 0.0)
+            results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        else
+            results.smoothed_normalized_likelihoods[i] = 1. / double(size());
     }
 }
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 62a559d..4b80cbf 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -515,7 +515,11 @@ void xmm::HierarchicalHMM::updateResults() {
     i = 0;
     for (auto it = this->models.begin(); it != this->models.end(); ++it, ++i) {
         results.instant_normalized_likelihoods[i] /= normconst_instant;
-        results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        // without any evidence, all classes are as likely
+        if (normconst_smoothed > 0.0)
+            results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        else
+            results.smoothed_normalized_likelihoods[i] = 1. / double(size());
     }
 }
 
-- 
2.43.0


From ddff53511c64ba37cbd3920d9307c2fbdad9b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:23 +0000
Subject: [PATCH 46/74] fix: the classes of a copied model follow the
 parameters of the copy

---
 src/core/model/xmmModel.hpp            | 2 ++
 src/core/model/xmmModelSingleClass.hpp | 7 +++++++
 src/models/hmm/xmmHmmSingleClass.hpp   | 8 ++++++++
 3 files changed, 17 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index b24bec4..d912c68 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -89,6 +89,7 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.setSharedParameters(shared_parameters);
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -145,6 +146,7 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.setSharedParameters(shared_parameters);
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cad4a34..fd5bea2 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -296,6 +296,13 @@ class SingleClassProbabilisticModel : public Writable {
     TrainingEvent training_status;
 
   protected:
+    /**
+     @brief Attach the class to the parameters of the model that contains it
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+    }
+
     /**
      @brief Allocate memory for the model's parameters
      @details called when dimensions are modified
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..992a4e0 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -222,6 +222,14 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
     std::vector<float> transition;
 
   protected:
+    /**
+     @brief Attach the class and its states to the parameters of a model
+     */
+    void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+        for (auto& state : states) state.shared_parameters = p;
+    }
+
     /**
      @brief Allocate model parameters
      */
-- 
2.43.0


From 98e6e374dbae44507bfe5e486bb27f4575d29a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:27 +0000
Subject: [PATCH 47/74] fix: reading a HMM from JSON keeps its listeners

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4b80cbf..d31f69b 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -546,8 +546,10 @@ Json::Value xmm::HierarchicalHMM::toJson() const {
 void xmm::HierarchicalHMM::fromJson(Json::Value const &root) {
     checkTraining();
     try {
+        EventGenerator<TrainingEvent> _tmp_training_events(training_events);
         HierarchicalHMM tmp(root);
         *this = tmp;
+        training_events = _tmp_training_events;
     } catch (JsonException &e) {
         throw e;
     }
-- 
2.43.0


From b2a19fba8ea93867ae9dc9e69ff0a85503e1c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 48/74] fix: a GMM read from JSON is ready to filter

---
 src/core/model/xmmModel.hpp | 1 +
 src/models/gmm/xmmGmm.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index d912c68..55bbafa 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -460,6 +460,7 @@ class Model : public Writable {
             Model<SingleClassModel, ModelType> tmp(root);
             *this = tmp;
             training_events = _tmp_training_events;
+            reset();
         } catch (JsonException& e) {
             throw e;
         }
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 953f5fa..7f79083 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -39,7 +39,9 @@ xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
 xmm::GMM::GMM(GMM const& src)
     : Model<SingleClassGMM, GMM>(src), results(src.results) {}
 
-xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
+xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {
+    reset();
+}
 
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
-- 
2.43.0


From 987a27d72999a00b41e57863e872c9663e80f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 49/74] fix: a HMM read from JSON is ready to filter

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 9 +++++++--
 src/models/hmm/xmmHierarchicalHmm.hpp | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index d31f69b..ecdc78b 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -58,6 +58,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     }
     exit_transition.resize(size());
     json2vector(root["exit_transition"], exit_transition, size());
+    allocateResults();
 }
 
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
@@ -365,8 +366,7 @@ void xmm::HierarchicalHMM::removeClass(std::string const &label) {
     updateTransitionParameters();
 }
 
-void xmm::HierarchicalHMM::reset() {
-    Model<SingleClassHMM, HMM>::reset();
+void xmm::HierarchicalHMM::allocateResults() {
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
@@ -386,6 +386,11 @@ void xmm::HierarchicalHMM::reset() {
     }
     frontier_v1_.resize(this->size());
     frontier_v2_.resize(this->size());
+}
+
+void xmm::HierarchicalHMM::reset() {
+    Model<SingleClassHMM, HMM>::reset();
+    allocateResults();
     forward_initialized_ = false;
     for (auto &model : models) {
         model.second.is_hierarchical_ = configuration.hierarchical.get();
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 4f7a482..cff590e 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -237,6 +237,11 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     void updateTransition();
 
+    /**
+     @brief Allocate the results and the intermediate variables of filtering
+     */
+    void allocateResults();
+
     virtual void addModelForClass(std::string const& label);
 
     /**
-- 
2.43.0


From a5382d9c953acf390aa72c518f68dc349d98f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 50/74] fix: the training of a class without any frame fails

---
 src/core/model/xmmModelSingleClass.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 3cc7b5f..b851353 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -121,15 +121,18 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
 
     training_status.status = TrainingEvent::Status::Run;
 
+    // a class cannot be estimated without any frame
+    unsigned int total_length(0);
     if (trainingSet && !trainingSet->empty()) {
-        this->allocate();
-    } else {
-        trainingError = true;
+        for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); ++it)
+            total_length += it->second->size();
     }
+    if (total_length == 0) trainingError = true;
 
     if (cancelTrainingIfRequested()) return;
     if (!trainingError) {
         try {
+            this->allocate();
             this->emAlgorithmInit(trainingSet);
         } catch (std::exception& e) {
             trainingError = true;
-- 
2.43.0


From 7c600819848274401519fc444b13ae60ab95de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 51/74] fix: a class is reported as training until its thread
 no longer uses it

---
 src/core/model/xmmModelSingleClass.cpp | 11 ++++++-----
 src/core/model/xmmModelSingleClass.hpp |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index b851353..507db03 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -165,10 +165,10 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
             trainingError = true;
 
         if (trainingError) {
-            is_training_ = false;
-            training_mutex_.unlock();
             training_status.status = TrainingEvent::Status::Error;
+            training_mutex_.unlock();
             training_events.notifyListeners(training_status);
+            is_training_ = false;
             return;
         }
 
@@ -191,6 +191,9 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
     this->emAlgorithmTerminate();
 
     training_mutex_.unlock();
+    training_events.notifyListeners(training_status);
+    // from here on, the class can be destroyed by another thread
+    is_training_ = false;
 }
 
 bool xmm::SingleClassProbabilisticModel::emAlgorithmHasConverged(
@@ -207,8 +210,6 @@ bool xmm::SingleClassProbabilisticModel::emAlgorithmHasConverged(
 
 void xmm::SingleClassProbabilisticModel::emAlgorithmTerminate() {
     training_status.status = TrainingEvent::Status::Done;
-    training_events.notifyListeners(training_status);
-    this->is_training_ = false;
 }
 
 void xmm::SingleClassProbabilisticModel::cancelTraining() {
@@ -219,9 +220,9 @@ void xmm::SingleClassProbabilisticModel::cancelTraining() {
 
 bool xmm::SingleClassProbabilisticModel::cancelTrainingIfRequested() {
     if (!cancel_training_) return false;
-    training_mutex_.unlock();
     training_status.label = label;
     training_status.status = TrainingEvent::Status::Cancel;
+    training_mutex_.unlock();
     training_events.notifyListeners(training_status);
     is_training_ = false;
     return true;
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index fd5bea2..1c500f9 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -38,6 +38,7 @@
 #include "../common/xmmEvents.hpp"
 #include "../trainingset/xmmTrainingSet.hpp"
 #include "xmmModelSharedParameters.hpp"
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -367,12 +368,12 @@ class SingleClassProbabilisticModel : public Writable {
     /**
      @brief defines if the model is being trained.
      */
-    bool is_training_;
+    std::atomic<bool> is_training_;
 
     /**
      @brief defines if the model received a request to cancel training
      */
-    bool cancel_training_;
+    std::atomic<bool> cancel_training_;
 };
 }
 
-- 
2.43.0


From 691e481d1b0fb52b25ab0a6b0214b7bc6b3f29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 52/74] fix: training refuses a training set of the other
 modality

---
 src/core/model/xmmModel.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 55bbafa..f7e1b65 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -247,6 +247,7 @@ class Model : public Writable {
      */
     virtual void train(TrainingSet* trainingSet) {
         if (!trainingSet || trainingSet->size() < 1) return;
+        checkModality(trainingSet);
         cancelTraining();
         clear();
 
@@ -315,6 +316,7 @@ class Model : public Writable {
         if (!trainingSet) return;
         if (trainingSet->labels().count(label) == 0)
             throw std::out_of_range("Class " + label + " does not exist");
+        checkModality(trainingSet);
 
         // Cancel Training of the class
         cancelTraining(label);
@@ -564,6 +566,16 @@ class Model : public Writable {
         }
     }
 
+    /**
+     @brief Checks that a training set has the modality of the model
+     @throws runtime_error if the training set cannot train the model
+     */
+    inline void checkModality(TrainingSet* trainingSet) const {
+        if (trainingSet->bimodal() != shared_parameters->bimodal.get())
+            throw std::runtime_error(
+                "The modality of the Training Set does not match the model");
+    }
+
     /**
      @brief Look for configuration changes and throws an exception if the model
      is not up to date.
-- 
2.43.0


From 302ebc4b132d2dd22aaf5ebf5478249b7bcb3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 53/74] fix: every training ends once, when all classes are at
 rest, and failed classes are removed

---
 src/core/model/xmmModel.hpp           | 389 ++++++++++++++++----------
 src/models/gmm/xmmGmm.cpp             |   2 +-
 src/models/gmm/xmmGmm.hpp             |  15 +-
 src/models/hmm/xmmHierarchicalHmm.cpp |  15 +-
 src/models/hmm/xmmHierarchicalHmm.hpp |  23 +-
 5 files changed, 262 insertions(+), 182 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index f7e1b65..faf7be3 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -38,6 +38,9 @@
 #include "xmmModelResults.hpp"
 #include "xmmModelSingleClass.hpp"
 #include <atomic>
+#include <chrono>
+#include <condition_variable>
+#include <mutex>
 #include <thread>
 
 namespace xmm {
@@ -57,10 +60,11 @@ class Model : public Writable {
      */
     Model(bool bimodal = false)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
-          is_joining_(false),
-          models_still_training_(0) {
+          background_training_(false),
+          models_still_training_(0),
+          event_thread_(std::thread::id()),
+          alldone_thread_(std::thread::id()) {
         shared_parameters->bimodal.set(bimodal);
         if (shared_parameters->bimodal.get()) {
             shared_parameters->dimension.set(2, true);
@@ -80,10 +84,11 @@ class Model : public Writable {
               std::make_shared<SharedParameters>(*src.shared_parameters)),
           configuration(src.configuration),
           training_events(src.training_events),
-          cancel_required_(false),
           is_training_(false),
-          is_joining_(false),
-          models_still_training_(0) {
+          background_training_(false),
+          models_still_training_(0),
+          event_thread_(std::thread::id()),
+          alldone_thread_(std::thread::id()) {
         if (src.is_training_)
             throw std::runtime_error(
                 "Cannot copy: source model is still training");
@@ -103,10 +108,11 @@ class Model : public Writable {
      */
     explicit Model(Json::Value const& root)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
-          is_joining_(false),
-          models_still_training_(0) {
+          background_training_(false),
+          models_still_training_(0),
+          event_thread_(std::thread::id()),
+          alldone_thread_(std::thread::id()) {
         shared_parameters->fromJson(root["shared_parameters"]);
         configuration.fromJson(root["configuration"]);
         models.clear();
@@ -134,13 +140,11 @@ class Model : public Writable {
             if (src.is_training_)
                 throw std::runtime_error(
                     "Cannot copy: source model is still training");
+            waitTraining();
             shared_parameters =
                 std::make_shared<SharedParameters>(*src.shared_parameters);
             configuration = src.configuration;
             training_events = src.training_events;
-            is_joining_ = false;
-            is_training_ = false;
-            cancel_required_ = false;
             models_still_training_ = 0;
 
             models.clear();
@@ -207,20 +211,32 @@ class Model : public Writable {
      @param label label of the class to remove
      */
     virtual void removeClass(std::string const& label) {
-        while (is_joining_) {
+        checkEventThread();
+        {
+            std::lock_guard<std::mutex> lock(threads_mutex_);
+            if (models.count(label) == 0)
+                throw std::out_of_range("Class " + label + " does not exist");
+        }
+        // the label can belong to the class that is removed
+        const std::string class_label(label);
+        cancelClass(class_label);
+        {
+            std::lock_guard<std::mutex> lock(threads_mutex_);
+            joinClass(class_label);
+            // the end of the training already removes the class it cancels
+            models.erase(class_label);
+        }
+        if (models_still_training_ == 0) {
+            waitTraining();
+            reset();
         }
-        cancelTraining(label);
-        auto it = models.find(label);
-        if (it == models.end())
-            throw std::out_of_range("Class " + label + " does not exist");
-        models.erase(it);
-        reset();
     }
 
     /**
      @brief Remove all classes
      */
     virtual void clear() {
+        checkEventThread();
         if (is_training_) cancelTraining();
         models.clear();
         reset();
@@ -248,59 +264,15 @@ class Model : public Writable {
     virtual void train(TrainingSet* trainingSet) {
         if (!trainingSet || trainingSet->size() < 1) return;
         checkModality(trainingSet);
+        checkEventThread();
         cancelTraining();
         clear();
 
-        is_training_ = true;
-
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
-        }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
-        // Update models
-        bool contLoop(true);
-        while (contLoop) {
-            contLoop = false;
-            for (auto it = models.begin(); it != models.end(); ++it) {
-                if (trainingSet->labels().count(it->first) == 0) {
-                    models.erase(it->first);
-                    contLoop = true;
-                    break;
-                }
-            }
-        }
-        for (typename std::set<std::string>::iterator it =
-                 trainingSet->labels().begin();
-             it != trainingSet->labels().end(); ++it) {
-            addModelForClass(*it);
-        }
 
         // Start class training
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.is_training_ = true;
-            it->second.cancel_training_ = false;
-            models_still_training_++;
-            if ((configuration.multithreading ==
-                 MultithreadingMode::Parallel) ||
-                (configuration.multithreading ==
-                 MultithreadingMode::Background)) {
-                training_threads_[it->first] =
-                    std::thread(&SingleClassModel::train, &it->second,
-                                trainingSet->getPhrasesOfClass(it->first));
-            } else {
-                it->second.train(trainingSet->getPhrasesOfClass(it->first));
-            }
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
+        std::set<std::string> labels(trainingSet->labels());
+        while (!startTraining(trainingSet, labels)) waitTraining();
+        finishTraining(trainingSet, labels);
     }
 
     /**
@@ -318,6 +290,8 @@ class Model : public Writable {
             throw std::out_of_range("Class " + label + " does not exist");
         checkModality(trainingSet);
 
+        checkEventThread();
+
         // Cancel Training of the class
         cancelTraining(label);
 
@@ -333,35 +307,11 @@ class Model : public Writable {
                     "models");
         }
 
-        is_training_ = true;
-
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
-        }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
-        addModelForClass(label);
-
         // Start class training
-        models[label].is_training_ = true;
-        models[label].cancel_training_ = false;
-        models_still_training_++;
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            models[label].train(trainingSet->getPhrasesOfClass(label));
-        } else {
-            training_threads_[label] =
-                std::thread(&SingleClassModel::train, &(this->models[label]),
-                            trainingSet->getPhrasesOfClass(label));
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
+        std::set<std::string> labels;
+        labels.insert(label);
+        while (!startTraining(trainingSet, labels)) waitTraining();
+        finishTraining(trainingSet, labels);
     }
 
     /**
@@ -369,15 +319,14 @@ class Model : public Writable {
      */
     void cancelTraining() {
         if (is_training_) {
+            std::lock_guard<std::mutex> lock(threads_mutex_);
             for (auto& it : this->models) {
-                cancel_required_ = true;
                 it.second.cancelTraining();
-                while (it.second.isTraining()) {
-                }
             }
-            joinTraining();
         }
-        cancel_required_ = false;
+        // the training ends after the event that is being sent
+        if (event_thread_ == std::this_thread::get_id()) return;
+        waitTraining();
     }
 
     /**
@@ -385,16 +334,9 @@ class Model : public Writable {
      @param label label of the class to cancel
      */
     void cancelTraining(std::string const& label) {
-        if (is_training_ && (this->models.count(label) > 0)) {
-            cancel_required_ = true;
-            models[label].cancelTraining();
-            while (models[label].isTraining()) {
-            }
-            if (models_still_training_ == 0) {
-                joinTraining();
-            }
-        }
-        cancel_required_ = false;
+        cancelClass(label);
+        if (event_thread_ == std::this_thread::get_id()) return;
+        if (models_still_training_ == 0) waitTraining();
     }
 
     ///@}
@@ -405,12 +347,10 @@ class Model : public Writable {
     /**
      @brief Resets the fitering process (recognition or regression)
      */
-    virtual void reset() {
+    void reset() {
         checkTraining();
         // checkConfigurationChanges();
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.reset();
-        }
+        resetPerformance();
     }
 
     /**
@@ -492,13 +432,83 @@ class Model : public Writable {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
+     @brief Starts the training of several classes
+     @return false if a training is already running, and must end before
+     */
+    bool startTraining(TrainingSet* trainingSet,
+                       std::set<std::string> const& labels) {
+        std::lock_guard<std::mutex> event_lock(event_mutex_);
+        if (is_training_ &&
+            (models_still_training_ == 0 || !background_training_ ||
+             configuration.multithreading != MultithreadingMode::Background))
+            return false;
+        std::lock_guard<std::mutex> lock(threads_mutex_);
+
+        // Fetch training set parameters
+        shared_parameters->dimension.set(trainingSet->dimension.get());
+        if (shared_parameters->bimodal.get()) {
+            shared_parameters->dimension_input.set(
+                trainingSet->dimension_input.get());
+        }
+        shared_parameters->column_names.set(trainingSet->column_names.get());
+
+        // Update models
+        for (auto& label : labels) {
+            joinClass(label);
+            addModelForClass(label);
+        }
+
+        // No event is sent until all classes have started
+        is_training_ = true;
+        background_training_ =
+            (configuration.multithreading == MultithreadingMode::Background);
+        for (auto& label : labels) {
+            models[label].is_training_ = true;
+            models[label].cancel_training_ = false;
+            models_still_training_++;
+        }
+        if (configuration.multithreading != MultithreadingMode::Sequential) {
+            for (auto& label : labels) {
+                training_threads_[label] =
+                    std::thread(&SingleClassModel::train, &models[label],
+                                trainingSet->getPhrasesOfClass(label));
+            }
+        }
+        return true;
+    }
+
+    /**
+     @brief Waits for the end of the training, except if it runs in background
+     */
+    void finishTraining(TrainingSet* trainingSet,
+                        std::set<std::string> const& labels) {
+        if (configuration.multithreading == MultithreadingMode::Background)
+            return;
+        if (configuration.multithreading == MultithreadingMode::Sequential) {
+            std::map<std::string, SingleClassModel*> classes;
+            {
+                std::lock_guard<std::mutex> lock(threads_mutex_);
+                for (auto& label : labels) classes[label] = &models[label];
+            }
+            for (auto& it : classes) {
+                it.second->train(trainingSet->getPhrasesOfClass(it.first));
+            }
+        }
+        {
+            std::unique_lock<std::mutex> lock(event_mutex_);
+            while (models_still_training_ > 0) training_end_.wait(lock);
+        }
+        joinTraining(std::thread());
+    }
+
+    /**
+     @brief Finishes the training process by joining threads and
      deleting the models which training failed
+     @param previous thread that finished the previous training
      */
-    virtual void joinTraining() {
-        if (!is_training_) return;
-        bool expectedState(false);
-        if (is_joining_.compare_exchange_weak(expectedState, true)) {
+    void joinTraining(std::thread previous) {
+        {
+            std::lock_guard<std::mutex> lock(threads_mutex_);
             while (!training_threads_.empty()) {
                 training_threads_.begin()->second.join();
                 training_threads_.erase(training_threads_.begin());
@@ -518,42 +528,106 @@ class Model : public Writable {
                     }
                 }
             }
-            is_joining_ = false;
+            resetPerformance();
+        }
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
             is_training_ = false;
-            reset();
-            TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
-            training_events.notifyListeners(event);
-        } else {
-            while (is_joining_) {
+            training_end_.notify_all();
+        }
+        if (previous.joinable()) previous.join();
+        std::thread::id outer(alldone_thread_);
+        alldone_thread_ = std::this_thread::get_id();
+        TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
+        training_events.notifyListeners(event);
+        alldone_thread_ = outer;
+    }
+
+    /**
+     @brief Waits until the model is at rest: the training is finished and its
+     last event has been received
+     */
+    void waitTraining() {
+        std::thread finisher;
+        {
+            std::unique_lock<std::mutex> lock(event_mutex_);
+            while (is_training_) training_end_.wait(lock);
+            if (alldone_thread_ != std::this_thread::get_id())
+                finisher.swap(training_finisher_);
+        }
+        if (finisher.joinable()) finisher.join();
+    }
+
+    /**
+     @brief Requests that a class stops its training, and waits until it has
+     (or returns immediately while sending a training event)
+     */
+    void cancelClass(std::string const& label) {
+        while (true) {
+            {
+                std::lock_guard<std::mutex> lock(threads_mutex_);
+                auto it = models.find(label);
+                if (it == models.end() || !it->second.isTraining()) return;
+                it->second.cancelTraining();
             }
+            if (event_thread_ == std::this_thread::get_id()) return;
+            std::this_thread::sleep_for(std::chrono::microseconds(50));
         }
     }
 
+    /**
+     @brief Joins the training thread of a class that has stopped training
+     */
+    void joinClass(std::string const& label) {
+        auto it = training_threads_.find(label);
+        if (it == training_threads_.end()) return;
+        it->second.join();
+        training_threads_.erase(it);
+    }
+
     /**
      @brief Monitors the training of each Model of the group.
      */
     void onTrainingEvent(TrainingEvent const& e) {
-        event_mutex_.lock();
+        std::lock_guard<std::mutex> lock(event_mutex_);
+        event_thread_ = std::this_thread::get_id();
         TrainingEvent event(e);
         event.model = this;
         training_events.notifyListeners(event);
-        if (e.status != TrainingEvent::Status::Run) {
+        event_thread_ = std::thread::id();
+        if (e.status != TrainingEvent::Status::Run &&
+            models_still_training_ > 0) {
             models_still_training_--;
-            ((SingleClassModel*)e.model)->is_training_ = false;
-            if (configuration.multithreading ==
-                    MultithreadingMode::Background &&
-                !is_joining_ &&       // avoid to call "joinTraining" if already
-                                      // called by the main thread
-                !cancel_required_ &&  // avoid to call "joinTraining" if cancel
-                                      // required by the main thread
-                models_still_training_ == 0) {
-                is_joining_ = false;
-                std::thread(&Model<SingleClassModel, ModelType>::joinTraining,
-                            this)
-                    .detach();
+            if (models_still_training_ == 0) {
+                training_end_.notify_all();
+                if (background_training_) {
+                    std::thread previous;
+                    previous.swap(training_finisher_);
+                    training_finisher_ = std::thread(
+                        &Model<SingleClassModel, ModelType>::joinTraining, this,
+                        std::move(previous));
+                }
             }
         }
-        event_mutex_.unlock();
+    }
+
+    /**
+     @brief Resets the filtering process, while the model is locked
+     */
+    virtual void resetPerformance() {
+        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
+            it->second.reset();
+        }
+    }
+
+    /**
+     @brief Checks that the calling thread is not sending an event of the
+     training process
+     @throws runtime_error if the training waits for the end of an event
+     */
+    inline void checkEventThread() const {
+        if (event_thread_ == std::this_thread::get_id())
+            throw std::runtime_error("The Model is training");
     }
 
     /**
@@ -562,8 +636,6 @@ class Model : public Writable {
      */
     inline void checkTraining() const {
         if (is_training_) throw std::runtime_error("The Model is training");
-        while (is_joining_) {
-        }
     }
 
     /**
@@ -622,10 +694,9 @@ class Model : public Writable {
     std::map<std::string, std::thread> training_threads_;
 
     /**
-     @brief locks the Model while the models are training
-     Used in cancel method
+     @brief Thread that finishes the training in background
      */
-    std::atomic<bool> cancel_required_;
+    std::thread training_finisher_;
 
     /**
      @brief locks the Model while the models are training
@@ -634,15 +705,35 @@ class Model : public Writable {
     std::atomic<bool> is_training_;
 
     /**
-     @brief specifies if a thread for joining the training process has been
-     launched.
+     @brief specifies if the current training runs in background
      */
-    std::atomic<bool> is_joining_;
+    bool background_training_;
 
     /**
      @brief Number of models that are still training
      */
-    unsigned int models_still_training_;
+    std::atomic<unsigned int> models_still_training_;
+
+    /**
+     @brief Thread that is sending an event of a training class, if any
+     */
+    std::atomic<std::thread::id> event_thread_;
+
+    /**
+     @brief Thread that is sending the event that ends the training, if any
+     */
+    std::atomic<std::thread::id> alldone_thread_;
+
+    /**
+     @brief Mutex that protects the classes and their threads from concurrent
+     changes. It is locked after event_mutex_
+     */
+    std::mutex threads_mutex_;
+
+    /**
+     @brief notified when classes, and then the model, end their training
+     */
+    std::condition_variable training_end_;
 
     /**
      @brief Mutex that prevents concurrent calls to onEvent()
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 7f79083..109ee20 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -89,7 +89,7 @@ void xmm::GMM::updateResults() {
 
 #pragma mark -
 #pragma mark Performance
-void xmm::GMM::reset() {
+void xmm::GMM::resetPerformance() {
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/gmm/xmmGmm.hpp b/src/models/gmm/xmmGmm.hpp
index 03d9247..011dbd0 100644
--- a/src/models/gmm/xmmGmm.hpp
+++ b/src/models/gmm/xmmGmm.hpp
@@ -70,13 +70,13 @@ class GMM : public Model<SingleClassGMM, GMM> {
      */
     GMM& operator=(GMM const& src);
 
-    /** @name Performance */
-    ///@{
-
     /**
-     @brief Resets the fitering process (recognition or regression)
+     @brief Destructor: ends the training before the model is destroyed
      */
-    virtual void reset();
+    virtual ~GMM() { cancelTraining(); }
+
+    /** @name Performance */
+    ///@{
 
     /**
      @brief filters a incoming observation (performs recognition or regression)
@@ -148,6 +148,11 @@ class GMM : public Model<SingleClassGMM, GMM> {
     Results<GMM> results;
 
   protected:
+    /**
+     @brief Resets the filtering process, while the model is locked
+     */
+    virtual void resetPerformance();
+
     /**
      @brief Update the results (Likelihoods)
      */
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index ecdc78b..becd2c3 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -107,11 +107,6 @@ void xmm::HierarchicalHMM::normalizeTransitions() {
     for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
 }
 
-void xmm::HierarchicalHMM::joinTraining() {
-    Model<SingleClassHMM, HMM>::joinTraining();
-    updateTransitionParameters();
-}
-
 void xmm::HierarchicalHMM::updateTransitionParameters() {
     if (this->size() == prior.size())  // number of primitives has not changed
         return;
@@ -361,11 +356,6 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
     }
 }
 
-void xmm::HierarchicalHMM::removeClass(std::string const &label) {
-    Model<SingleClassHMM, HMM>::removeClass(label);
-    updateTransitionParameters();
-}
-
 void xmm::HierarchicalHMM::allocateResults() {
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
@@ -388,8 +378,9 @@ void xmm::HierarchicalHMM::allocateResults() {
     frontier_v2_.resize(this->size());
 }
 
-void xmm::HierarchicalHMM::reset() {
-    Model<SingleClassHMM, HMM>::reset();
+void xmm::HierarchicalHMM::resetPerformance() {
+    updateTransitionParameters();
+    Model<SingleClassHMM, HMM>::resetPerformance();
     allocateResults();
     forward_initialized_ = false;
     for (auto &model : models) {
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index cff590e..951ddb1 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -75,14 +75,13 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     HierarchicalHMM& operator=(HierarchicalHMM const& src);
 
-    /** @name Class Manipulation */
-    ///@{
-
     /**
-     @brief Remove a specific class by label
-     @param label label of the class to remove
+     @brief Destructor: ends the training before the model is destroyed
      */
-    virtual void removeClass(std::string const& label);
+    virtual ~HierarchicalHMM() { cancelTraining(); }
+
+    /** @name Class Manipulation */
+    ///@{
 
     /**
      @brief Remove All models
@@ -101,11 +100,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     /** @name Performance */
     ///@{
 
-    /**
-     @brief Resets the fitering process (recognition or regression)
-     */
-    virtual void reset();
-
     /**
      @brief filters a incoming observation (performs recognition or regression)
      @details the results of the inference process are stored in the results
@@ -213,11 +207,10 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
-     @details: updates transition parameters after joining
+     @brief Resets the filtering process, while the model is locked
+     @details: updates the transition parameters to the current classes
      */
-    virtual void joinTraining();
+    virtual void resetPerformance();
 
     /**
      @brief update high-level parameters when a new primitive is learned
-- 
2.43.0


From 76220cb0fa0fe5987ad3112a1f6fe521f33347ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 54/74] fix: a class retrained after switching to hierarchical
 decoding is cyclic

The flag of an existing class was only updated by the next reset, after the
training had added the cyclic transition of classes decoded on their own.
---
 src/models/hmm/xmmHierarchicalHmm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index becd2c3..d55146a 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -131,6 +131,7 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::addModelForClass(std::string const &label) {
     Model<SingleClassHMM, HMM>::addModelForClass(label);
+    models[label].is_hierarchical_ = configuration.hierarchical.get();
     updateTransitionParameters();
 }
 
-- 
2.43.0


From e3998f1c6e8c4fa313665848fe063c3f4b05f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 55/74] fix: JSON phrases with negative sizes or mistyped
 column names are refused

---
 src/core/common/xmmJson.hpp        | 13 ++++++++
 src/core/trainingset/xmmPhrase.cpp | 52 +++++++++++++++++-------------
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 4510a5c..ca0a0f9 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -241,6 +241,19 @@ class JsonException : public std::exception {
     std::string message_;
 };
 
+/**
+ @ingroup Common
+ @brief Checks that a Json Value is an array, if it exists
+ @param root Json Value
+ @param nodename name of the node
+ @throws JsonException if the value exists and is not an array
+ */
+inline void checkJsonArray(Json::Value const& root, std::string nodename) {
+    if (!root.isNull() && !root.isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            nodename);
+}
+
 /**
  @ingroup Common
  @brief Writes a C-style array to a Json Value
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 381deed..0718790 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -109,48 +109,54 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     bimodal_ = root.get("bimodal", false).asBool();
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt(), true);
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt(), true);
     if (bimodal_) {
         dimension_input.setLimits(1, dimension.get() - 1);
     } else {
         dimension_input.setLimits(0, 0);
     }
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt(), true);
-    data_ = new float*[bimodal_ ? 2 : 1];
-    data_[0] = NULL;
-    if (bimodal_) data_[1] = NULL;
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt(),
+                        true);
 
-    column_names.resize(dimension.get(), "");
-    if (root["column_names"].size() > column_names.size())
+    checkJsonArray(root["column_names"], "column_names");
+    if (root["column_names"].size() > dimension.get())
         throw JsonException(JsonException::JsonErrorType::JsonValueError,
                             "column_names");
+    column_names.resize(dimension.get(), "");
     for (int i = 0; i < root["column_names"].size(); i++) {
         column_names[i] = root["column_names"].get(i, "").asString();
     }
 
     label.set(root["label"].asString());
 
-    length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
+    length_ = root.get("length", 0).asUInt();
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = bimodal_ ? length_ : 0;
     empty_ = (length_ == 0 && input_length_ == 0 && output_length_ == 0);
 
-    if (bimodal_) {
-        data_[0] =
-            reallocate<float>(data_[0], max_length_ * dimension_input.get(),
-                              length_ * dimension_input.get());
-        data_[1] = reallocate<float>(
-            data_[1], max_length_ * (dimension.get() - dimension_input.get()),
-            length_ * (dimension.get() - dimension_input.get()));
-        json2array(root["data_input"], data_[0],
-                   length_ * dimension_input.get());
-        json2array(root["data_output"], data_[1],
-                   length_ * (dimension.get() - dimension_input.get()));
-    } else {
-        data_[0] = reallocate<float>(data_[0], max_length_ * dimension.get(),
-                                     length_ * dimension.get());
-        json2array(root["data"], data_[0], length_ * dimension.get());
+    // read all the frames before allocating the phrase's own memory
+    std::vector<float> frames[2];
+    for (int m = 0; m < (bimodal_ ? 2 : 1); m++) {
+        std::string const node(!bimodal_ ? "data" : (m == 0) ? "data_input"
+                                                             : "data_output");
+        if (!root[node].isArray())
+            throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                                node);
+        unsigned long long const modality_dim =
+            !bimodal_ ? dimension.get()
+                      : (m == 0) ? dimension_input.get()
+                                 : dimension.get() - dimension_input.get();
+        if (root[node].size() != modality_dim * length_)
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                node);
+        frames[m].resize(root[node].size());
+        json2vector(root[node], frames[m], root[node].size());
+    }
+    data_ = new float*[bimodal_ ? 2 : 1];
+    for (int m = 0; m < (bimodal_ ? 2 : 1); m++) {
+        data_[m] = new float[frames[m].size()];
+        std::copy(frames[m].begin(), frames[m].end(), data_[m]);
     }
 }
 
-- 
2.43.0


From 053d3dacb57001d644e858e428b19c32f0eb0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 56/74] fix: JSON training sets with phrases of the same index
 or of another shape are refused

---
 src/core/trainingset/xmmTrainingSet.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 203c091..8fb5661 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -83,8 +83,9 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
+    checkJsonArray(root["column_names"], "column_names");
     std::vector<std::string> tmpColNames(dimension.get());
     if (root["column_names"].size() > tmpColNames.size())
         throw JsonException(JsonException::JsonErrorType::JsonValueError,
@@ -96,11 +97,18 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
     // Get Phrases
     phrases_.clear();
+    checkJsonArray(root["phrases"], "phrases");
     for (auto p : root["phrases"]) {
-        phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
-            p["index"].asInt(), std::make_shared<Phrase>(p)));
-        phrases_[p["index"].asInt()]->events.addListener(
-            this, &xmm::TrainingSet::onPhraseEvent);
+        int const index(p["index"].asInt());
+        auto phrase = std::make_shared<Phrase>(p);
+        if (phrases_.count(index) > 0 || phrase->bimodal() != bimodal_ ||
+            phrase->dimension.get() != dimension.get() ||
+            phrase->dimension_input.get() != dimension_input.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "phrases");
+        phrase->column_names = column_names.get();
+        phrase->events.addListener(this, &xmm::TrainingSet::onPhraseEvent);
+        phrases_[index] = phrase;
     }
     update();
 }
-- 
2.43.0


From b10ee8bb1477ffc6ddd7930de155bb593c9ee867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 57/74] fix: JSON shared parameters with mistyped or too many
 column names are refused

---
 src/core/model/xmmModelSharedParameters.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 407fbdd..77d96d8 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -98,6 +98,10 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_percent_chg.set(
         root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asUInt());
+    checkJsonArray(root["column_names"], "column_names");
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
         tmpColNames[i] = root["column_names"].get(i, "").asString();
-- 
2.43.0


From 21c71a7383c66b62ad1895856c9673f29a7f5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 58/74] fix: JSON mixtures whose components do not fit the
 mixture are refused

---
 src/models/gmm/xmmGmmSingleClass.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..fff3d5a 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -55,9 +55,27 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     json2vector(root["mixture_coeffs"], mixture_coeffs,
                 parameters.gaussians.get());
 
+    if (!root["components"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "components");
+    if (root["components"].size() != components.size())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "components");
     int c(0);
     for (auto p : root["components"]) {
-        components[c++].fromJson(p);
+        GaussianDistribution component(p);
+        // the component must be one that the model could have trained
+        if (p.get("bimodal", false).asBool() !=
+                shared_parameters->bimodal.get() ||
+            component.mean.size() != components[c].mean.size() ||
+            component.covariance.size() != components[c].covariance.size() ||
+            component.covariance_mode.get() !=
+                parameters.covariance_mode.get() ||
+            component.dimension_input.get() !=
+                components[c].dimension_input.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "components");
+        components[c++] = component;
     }
 
     updateInverseCovariances();
-- 
2.43.0


From 85759fc96012cb062002a54f5e3ef96aa7730c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 59/74] fix: JSON hidden Markov classes whose states do not fit
 the class are refused

---
 src/models/hmm/xmmHmmSingleClass.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 4ce890c..db2e589 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -75,9 +75,22 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                     parameters.states.get());
     }
 
+    if (!root["states"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "states");
+    if (root["states"].size() != states.size())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
     int s(0);
     for (auto p : root["states"]) {
-        states[s++].fromJson(p);
+        states[s].fromJson(p);
+        if (states[s].parameters.gaussians.get() !=
+                parameters.gaussians.get() ||
+            states[s].parameters.covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "states");
+        s++;
     }
 }
 
-- 
2.43.0


From f08c56b23c816365fea3f7af5039264f604a5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 60/74] fix: JSON hierarchical models with more or fewer
 transitions than classes are refused

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index d55146a..0079a77 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -52,6 +52,12 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     prior.resize(size());
     json2vector(root["prior"], prior, size());
     transition.resize(size());
+    if (!root["transition"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "transition");
+    if (root["transition"].size() != size())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "transition");
     for (int i = 0; i < size(); i++) {
         transition[i].resize(size());
         json2vector(root["transition"][i], transition[i], size());
-- 
2.43.0


From 9ad31f4cea36ec073ef13c7bf2e9160e795011cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 61/74] fix: JSON models with two classes of the same label are
 refused

---
 src/core/model/xmmModel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index faf7be3..9169dd7 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -116,8 +116,12 @@ class Model : public Writable {
         shared_parameters->fromJson(root["shared_parameters"]);
         configuration.fromJson(root["configuration"]);
         models.clear();
+        checkJsonArray(root["models"], "models");
         for (auto p : root["models"]) {
             std::string l = p["label"].asString();
+            if (models.count(l) > 0)
+                throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                    "models");
             models.insert(std::pair<std::string, SingleClassModel>(
                 l, SingleClassModel(shared_parameters, p)));
             models[l].training_events.removeListeners();
-- 
2.43.0


From 9dfc245f144b1df65125001eb8cabe006f0502f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 62/74] fix: JSON vectors of the wrong type are refused where
 none is expected

---
 src/core/common/xmmJson.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/common/xmmJson.cpp b/src/core/common/xmmJson.cpp
index 804776b..e68ed1e 100644
--- a/src/core/common/xmmJson.cpp
+++ b/src/core/common/xmmJson.cpp
@@ -83,7 +83,7 @@ void xmm::json2array(Json::Value const& root, std::string* a, unsigned int n) {
 template <>
 void xmm::json2vector(Json::Value const& root, std::vector<float>& a,
                       unsigned int n) {
-    if (n == 0) return;
+    if (n == 0 && root.isNull()) return;
     if (!root.isArray())
         throw JsonException(JsonException::JsonErrorType::JsonTypeError);
     if (root.size() != n)
@@ -97,7 +97,7 @@ void xmm::json2vector(Json::Value const& root, std::vector<float>& a,
 template <>
 void xmm::json2vector(Json::Value const& root, std::vector<double>& a,
                       unsigned int n) {
-    if (n == 0) return;
+    if (n == 0 && root.isNull()) return;
     if (!root.isArray())
         throw JsonException(JsonException::JsonErrorType::JsonTypeError);
     if (root.size() != n)
@@ -111,7 +111,7 @@ void xmm::json2vector(Json::Value const& root, std::vector<double>& a,
 template <>
 void xmm::json2vector(Json::Value const& root, std::vector<bool>& a,
                       unsigned int n) {
-    if (n == 0) return;
+    if (n == 0 && root.isNull()) return;
     if (!root.isArray())
         throw JsonException(JsonException::JsonErrorType::JsonTypeError);
     if (root.size() != n)
@@ -125,7 +125,7 @@ void xmm::json2vector(Json::Value const& root, std::vector<bool>& a,
 template <>
 void xmm::json2vector(Json::Value const& root, std::vector<std::string>& a,
                       unsigned int n) {
-    if (n == 0) return;
+    if (n == 0 && root.isNull()) return;
     if (!root.isArray())
         throw JsonException(JsonException::JsonErrorType::JsonTypeError);
     if (root.size() != n)
-- 
2.43.0


From 410f2a95b4a63a4b7e781561cf1bd63a6985feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 63/74] fix: JSON class models are checked before anything is
 allocated for them

---
 src/models/gmm/xmmGmmSingleClass.cpp | 28 ++++++++++++----------
 src/models/hmm/xmmHmmSingleClass.cpp | 36 +++++++++++++++-------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index fff3d5a..6e1d4e7 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -50,34 +50,36 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     : SingleClassProbabilisticModel(p, root) {
     parameters.fromJson(root["parameters"]);
 
-    allocate();
-
-    json2vector(root["mixture_coeffs"], mixture_coeffs,
-                parameters.gaussians.get());
-
+    // the components are checked before anything is allocated for them
     if (!root["components"].isArray())
         throw JsonException(JsonException::JsonErrorType::JsonTypeError,
                             "components");
-    if (root["components"].size() != components.size())
+    if (root["components"].size() != parameters.gaussians.get())
         throw JsonException(JsonException::JsonErrorType::JsonValueError,
                             "components");
-    int c(0);
+    std::vector<GaussianDistribution> tmpComponents;
     for (auto p : root["components"]) {
         GaussianDistribution component(p);
         // the component must be one that the model could have trained
         if (p.get("bimodal", false).asBool() !=
                 shared_parameters->bimodal.get() ||
-            component.mean.size() != components[c].mean.size() ||
-            component.covariance.size() != components[c].covariance.size() ||
-            component.covariance_mode.get() !=
-                parameters.covariance_mode.get() ||
+            component.dimension.get() != shared_parameters->dimension.get() ||
             component.dimension_input.get() !=
-                components[c].dimension_input.get())
+                shared_parameters->dimension_input.get() ||
+            component.covariance_mode.get() !=
+                parameters.covariance_mode.get())
             throw JsonException(JsonException::JsonErrorType::JsonValueError,
                                 "components");
-        components[c++] = component;
+        tmpComponents.push_back(component);
     }
 
+    allocate();
+
+    json2vector(root["mixture_coeffs"], mixture_coeffs,
+                parameters.gaussians.get());
+
+    components = tmpComponents;
+
     updateInverseCovariances();
 }
 
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index db2e589..a2b3460 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -60,6 +60,24 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
       is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
+    // the states are checked before anything is allocated for them
+    if (!root["states"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "states");
+    if (root["states"].size() != parameters.states.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
+    std::vector<SingleClassGMM> tmpStates;
+    for (auto state : root["states"]) {
+        tmpStates.push_back(SingleClassGMM(shared_parameters, state));
+        if (tmpStates.back().parameters.gaussians.get() !=
+                parameters.gaussians.get() ||
+            tmpStates.back().parameters.covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "states");
+    }
+
     allocate();
 
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
@@ -75,23 +93,7 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                     parameters.states.get());
     }
 
-    if (!root["states"].isArray())
-        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
-                            "states");
-    if (root["states"].size() != states.size())
-        throw JsonException(JsonException::JsonErrorType::JsonValueError,
-                            "states");
-    int s(0);
-    for (auto p : root["states"]) {
-        states[s].fromJson(p);
-        if (states[s].parameters.gaussians.get() !=
-                parameters.gaussians.get() ||
-            states[s].parameters.covariance_mode.get() !=
-                parameters.covariance_mode.get())
-            throw JsonException(JsonException::JsonErrorType::JsonValueError,
-                                "states");
-        s++;
-    }
+    states = tmpStates;
 }
 
 xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
-- 
2.43.0


From 8b0bba937c9ece3832076a4f392e9a63ca1469ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 64/74] fix: copied k-means models keep their dimension

---
 src/models/kmeans/xmmKMeans.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..8365599 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,13 +48,17 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
         initialization_mode = src.initialization_mode;
+        shared_parameters =
+            std::make_shared<SharedParameters>(*src.shared_parameters);
         configuration = src.configuration;
         centers = src.centers;
     }
-- 
2.43.0


From a8aabf5e3b462b37ead9fe69c9f745d8af8c8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 65/74] fix: k-means models filter with the centres they were
 trained with

---
 src/models/kmeans/xmmKMeans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 8365599..eb56f39 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -208,9 +208,14 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
+    unsigned int clusters =
+        static_cast<unsigned int>(centers.size()) / dimension;
+    if (clusters == 0)
+        throw std::runtime_error("Cannot filter: the model is not trained");
+    results.distances.resize(clusters, 0.0);
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
-    for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
+    for (unsigned int k = 0; k < clusters; ++k) {
         results.distances[k] = euclidean_distance(
             &observation[0], &centers[k * dimension], dimension);
         if (results.distances[k] < minDistance) {
-- 
2.43.0


From a403b38f893fd1521b0d7f5d6022ea41f4938691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 66/74] fix: models refuse to be written to JSON while they are
 training

---
 src/core/model/xmmModel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 9169dd7..e483462 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -384,6 +384,7 @@ class Model : public Writable {
      @return Json value containing the object's information
      */
     virtual Json::Value toJson() const {
+        checkTraining();
         Json::Value root;
         root["shared_parameters"] = shared_parameters->toJson();
         root["configuration"] = configuration.toJson();
-- 
2.43.0


From fa256cf9c4a229ba8d6f25667b373085afa06983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 67/74] fix: a class that joins a training leaves the shared
 dimensions alone

---
 src/core/model/xmmModel.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index e483462..85a36df 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -449,11 +449,14 @@ class Model : public Writable {
             return false;
         std::lock_guard<std::mutex> lock(threads_mutex_);
 
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
+        // Fetch training set parameters (a class that joins a running training
+        // has the same dimensions)
+        if (!is_training_) {
+            shared_parameters->dimension.set(trainingSet->dimension.get());
+            if (shared_parameters->bimodal.get()) {
+                shared_parameters->dimension_input.set(
+                    trainingSet->dimension_input.get());
+            }
         }
         shared_parameters->column_names.set(trainingSet->column_names.get());
 
-- 
2.43.0


From b75dd7080fbcf3c74663ce3ab8068551b1a590db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 68/74] fix: the dimension check of a class training does not
 race with a running training

---
 src/core/model/xmmModel.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 85a36df..8096d1a 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -300,15 +300,18 @@ class Model : public Writable {
         cancelTraining(label);
 
         // Check Consistency of the new Training Set
-        if (size() > 0) {
-            if ((shared_parameters->dimension.get() !=
-                 trainingSet->dimension.get()) ||
-                (shared_parameters->bimodal.get() &&
-                 (shared_parameters->dimension_input.get() !=
-                  trainingSet->dimension_input.get())))
-                throw std::runtime_error(
-                    "Dimensions of the new Training Set do not match existing "
-                    "models");
+        {
+            std::lock_guard<std::mutex> lock(threads_mutex_);
+            if (size() > 0) {
+                if ((shared_parameters->dimension.get() !=
+                     trainingSet->dimension.get()) ||
+                    (shared_parameters->bimodal.get() &&
+                     (shared_parameters->dimension_input.get() !=
+                      trainingSet->dimension_input.get())))
+                    throw std::runtime_error(
+                        "Dimensions of the new Training Set do not match "
+                        "existing models");
+            }
         }
 
         // Start class training
-- 
2.43.0


From f98591dc6347658eff2b62b249b581969d0b83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 69/74] fix: a training does not start before the last event of
 the previous one is sent

---
 src/core/model/xmmModel.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 8096d1a..4907b0b 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -441,7 +441,8 @@ class Model : public Writable {
   protected:
     /**
      @brief Starts the training of several classes
-     @return false if a training is already running, and must end before
+     @return false if a training is already running, or has not sent its last
+     event, and must end before
      */
     bool startTraining(TrainingSet* trainingSet,
                        std::set<std::string> const& labels) {
@@ -450,6 +451,9 @@ class Model : public Writable {
             (models_still_training_ == 0 || !background_training_ ||
              configuration.multithreading != MultithreadingMode::Background))
             return false;
+        if (!is_training_ && training_finisher_.joinable() &&
+            alldone_thread_ != std::this_thread::get_id())
+            return false;
         std::lock_guard<std::mutex> lock(threads_mutex_);
 
         // Fetch training set parameters (a class that joins a running training
-- 
2.43.0


From aa952e55284940601bb9c89d940f5166bd5508f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 70/74] fix: jsoncpp: the least integer is read without
 overflow

---
 dependencies/jsoncpp/src/json_reader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index 0453574..a393ddd 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -1552,7 +1552,7 @@ bool OurReader::decodeNumber(Token& token, Value& decoded) {
     ++current;
   // TODO: Help the compiler do the div and mod at compile time or get rid of them.
   Value::LargestUInt maxIntegerValue =
-      isNegative ? Value::LargestUInt(-Value::minLargestInt)
+      isNegative ? Value::LargestUInt(Value::maxLargestInt) + 1
                  : Value::maxLargestUInt;
   Value::LargestUInt threshold = maxIntegerValue / 10;
   Value::LargestUInt value = 0;
@@ -1573,7 +1573,9 @@ bool OurReader::decodeNumber(Token& token, Value& decoded) {
     }
     value = value * 10 + digit;
   }
-  if (isNegative)
+  if (isNegative && value == maxIntegerValue)
+    decoded = Value::minLargestInt;
+  else if (isNegative)
     decoded = -Value::LargestInt(value);
   else if (value <= Value::LargestUInt(Value::maxInt))
     decoded = Value::LargestInt(value);
-- 
2.43.0


From 83e12233583d45cb90b2980a742e8ebf5cbea230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 71/74] fix: jsoncpp: texts are not read beyond their end

---
 dependencies/jsoncpp/src/json_reader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index a393ddd..939e7d0 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -400,7 +400,7 @@ Reader::addComment(Location begin, Location end, CommentPlacement placement) {
 bool Reader::readCStyleComment() {
   while (current_ != end_) {
     Char c = getNextChar();
-    if (c == '*' && *current_ == '/')
+    if (c == '*' && current_ != end_ && *current_ == '/')
       break;
   }
   return getNextChar() == '/';
@@ -517,7 +517,7 @@ bool Reader::readArray(Token& tokenStart) {
   currentValue().swapPayload(init);
   currentValue().setOffsetStart(tokenStart.start_ - begin_);
   skipSpaces();
-  if (*current_ == ']') // empty array
+  if (current_ != end_ && *current_ == ']') // empty array
   {
     Token endArray;
     readToken(endArray);
@@ -792,7 +792,7 @@ void Reader::getLocationLineAndColumn(Location location,
   while (current < location && current != end_) {
     Char c = *current++;
     if (c == '\r') {
-      if (*current == '\n')
+      if (current != end_ && *current == '\n')
         ++current;
       lastLineStart = current;
       ++line;
@@ -1359,7 +1359,7 @@ OurReader::addComment(Location begin, Location end, CommentPlacement placement)
 bool OurReader::readCStyleComment() {
   while (current_ != end_) {
     Char c = getNextChar();
-    if (c == '*' && *current_ == '/')
+    if (c == '*' && current_ != end_ && *current_ == '/')
       break;
   }
   return getNextChar() == '/';
@@ -1499,7 +1499,7 @@ bool OurReader::readArray(Token& tokenStart) {
   currentValue().swapPayload(init);
   currentValue().setOffsetStart(tokenStart.start_ - begin_);
   skipSpaces();
-  if (*current_ == ']') // empty array
+  if (current_ != end_ && *current_ == ']') // empty array
   {
     Token endArray;
     readToken(endArray);
@@ -1798,7 +1798,7 @@ void OurReader::getLocationLineAndColumn(Location location,
   while (current < location && current != end_) {
     Char c = *current++;
     if (c == '\r') {
-      if (*current == '\n')
+      if (current != end_ && *current == '\n')
         ++current;
       lastLineStart = current;
       ++line;
-- 
2.43.0


From d0a08a90bcf364c3b933f5009e7469d51c0207d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 72/74] fix: jsoncpp: a comma after an empty name does not end
 an object

---
 dependencies/jsoncpp/src/json_reader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index 939e7d0..8e69ea1 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -468,7 +468,8 @@ bool Reader::readObject(Token& tokenStart) {
       initialTokenOk = readToken(tokenName);
     if (!initialTokenOk)
       break;
-    if (tokenName.type_ == tokenObjectEnd && name.empty()) // empty object
+    if (tokenName.type_ == tokenObjectEnd &&
+        currentValue().empty()) // empty object
       return true;
     name = "";
     if (tokenName.type_ == tokenString) {
@@ -1444,7 +1445,8 @@ bool OurReader::readObject(Token& tokenStart) {
       initialTokenOk = readToken(tokenName);
     if (!initialTokenOk)
       break;
-    if (tokenName.type_ == tokenObjectEnd && name.empty()) // empty object
+    if (tokenName.type_ == tokenObjectEnd &&
+        currentValue().empty()) // empty object
       return true;
     name = "";
     if (tokenName.type_ == tokenString) {
-- 
2.43.0


From 0826d5241c8021d14b451ec084c2a4dbd33c35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 73/74] fix: jsoncpp: a sign alone is not a number

---
 dependencies/jsoncpp/src/json_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index 8e69ea1..6fa3382 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -569,6 +569,8 @@ bool Reader::decodeNumber(Token& token, Value& decoded) {
   bool isNegative = *current == '-';
   if (isNegative)
     ++current;
+  if (current == token.end_)
+    return addError("'-' is not a number.", token);
   // TODO: Help the compiler do the div and mod at compile time or get rid of them.
   Value::LargestUInt maxIntegerValue =
       isNegative ? Value::LargestUInt(Value::maxLargestInt) + 1
@@ -1552,6 +1554,8 @@ bool OurReader::decodeNumber(Token& token, Value& decoded) {
   bool isNegative = *current == '-';
   if (isNegative)
     ++current;
+  if (current == token.end_)
+    return addError("'-' is not a number.", token);
   // TODO: Help the compiler do the div and mod at compile time or get rid of them.
   Value::LargestUInt maxIntegerValue =
       isNegative ? Value::LargestUInt(Value::maxLargestInt) + 1
-- 
2.43.0


From 58b87ea15c75beca3d7e6dff278bf9d97f739666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 74/74] fix: jsoncpp: names with NUL characters are written
 whole

---
 dependencies/jsoncpp/src/json_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_writer.cpp b/dependencies/jsoncpp/src/json_writer.cpp
index 0751b06..5e10182 100755
--- a/dependencies/jsoncpp/src/json_writer.cpp
+++ b/dependencies/jsoncpp/src/json_writer.cpp
@@ -445,7 +445,7 @@ void StyledWriter::writeValue(const Value& value) {
         const std::string& name = *it;
         const Value& childValue = value[name];
         writeCommentBeforeValue(childValue);
-        writeWithIndent(valueToQuotedString(name.c_str()));
+        writeWithIndent(valueToQuotedStringN(name.data(), static_cast<unsigned>(name.length())));
         document_ += " : ";
         writeValue(childValue);
         if (++it == members.end()) {
@@ -662,7 +662,7 @@ void StyledStreamWriter::writeValue(const Value& value) {
         const std::string& name = *it;
         const Value& childValue = value[name];
         writeCommentBeforeValue(childValue);
-        writeWithIndent(valueToQuotedString(name.c_str()));
+        writeWithIndent(valueToQuotedStringN(name.data(), static_cast<unsigned>(name.length())));
         *document_ << " : ";
         writeValue(childValue);
         if (++it == members.end()) {
-- 
2.43.0

