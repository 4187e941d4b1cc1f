From 8a36460b5865f80e46dd87ef4fd69602ba9eff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 01/82] fix: initialise the data arrays of copied and assigned
 phrases

Copying an empty phrase left its array pointers uninitialised (the destructor
then deleted garbage); copying a shared-memory phrase wrote through an
uninitialised array; assigning to or from a shared-memory phrase dereferenced
or overran the wrong array.
---
 src/core/trainingset/xmmPhrase.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..a310bce 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
@@ -152,22 +154,10 @@ xmm::Phrase::Phrase(Json::Value const& root)
 xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
     if (this != &src) {
         if (own_memory_) {
-            if (data_) {
-                if (bimodal_) try {
-                        delete[] data_[1];
-                    } catch (std::exception& e) {
-                    }
-                try {
-                    delete[] data_[0];
-                } catch (std::exception& e) {
-                }
-            }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
+            if (bimodal_) delete[] data_[1];
+            delete[] data_[0];
         }
+        delete[] data_;
         own_memory_ = src.own_memory_;
         bimodal_ = src.bimodal_;
         empty_ = src.empty_;
@@ -180,8 +170,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         column_names = src.column_names;
         label = src.label;
 
+        data_ = new float*[bimodal_ ? 2 : 1];
+        data_[0] = NULL;
+        if (bimodal_) data_[1] = NULL;
         if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
             if (max_length_ > 0) {
                 unsigned int modality_dim =
                     bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From 8d2560193fed2d235388a3f36e23ba970ef3e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 02/82] fix: release only owned arrays, with delete[], when a
 phrase changes dimension

The output array of a bimodal phrase was leaked when owned, and deleted (and
left dangling) when it belonged to the user.
---
 src/core/trainingset/xmmPhrase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index a310bce..377cdc0 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -556,14 +556,14 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
         }
         data_[0] = nullptr;
         if (bimodal_) {
             if (own_memory_) {
-                data_[1] = nullptr;
+                delete[] data_[1];
             }
-            delete data_[1];
+            data_[1] = nullptr;
         }
         column_names.resize(dimension.get());
     }
-- 
2.43.0


From a24cc7ff941d57278544dc6f885ef78b628cde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 03/82] fix: clearInput/clearOutput leave a unimodal phrase
 consistently empty

empty() stayed false, and clearOutput kept the old input length.
---
 src/core/trainingset/xmmPhrase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 377cdc0..d213655 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -420,7 +420,10 @@ void xmm::Phrase::clear() {
 void xmm::Phrase::clearInput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     input_length_ = 0;
     trim();
 }
@@ -428,7 +431,10 @@ void xmm::Phrase::clearInput() {
 void xmm::Phrase::clearOutput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     output_length_ = 0;
     trim();
 }
-- 
2.43.0


From 46e3c988dc3c52d77801bca328b56d0ccfde45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 04/82] fix: a phrase connected to a zero-length array is empty

---
 src/core/trainingset/xmmPhrase.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index d213655..6625cd2 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -282,7 +282,7 @@ void xmm::Phrase::connect(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     length_ = length;
-    empty_ = false;
+    empty_ = (length == 0);
 }
 
 void xmm::Phrase::connect(float* pointer_to_data_input,
@@ -297,7 +297,6 @@ void xmm::Phrase::connect(float* pointer_to_data_input,
     input_length_ = length;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
@@ -309,7 +308,6 @@ void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
@@ -321,7 +319,6 @@ void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
     data_[1] = pointer_to_data;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::disconnect() {
-- 
2.43.0


From a3af37bc3b81b6d5e4b2d15d91d34ed3f16afd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 05/82] fix: keep the input dimension of bimodal data below the
 total dimension

Shrinking the total dimension (or setting the input dimension of a fresh
bimodal phrase to 2) left no output dimension: the output size underflowed.
---
 src/core/trainingset/xmmPhrase.cpp      | 7 +++++--
 src/core/trainingset/xmmTrainingSet.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 6625cd2..fabd6f6 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -47,7 +47,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
@@ -570,8 +570,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         }
         column_names.resize(dimension.get());
     }
-    if (attr_pointer == &dimension)
+    if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_ && dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
+    }
     if (attr_pointer == &label) {
         PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
         events.notifyListeners(event);
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..1ff8c47 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -44,7 +44,7 @@ xmm::TrainingSet::TrainingSet(MemoryMode memoryMode,
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     column_names.resize(dimension.get());
 }
@@ -83,7 +83,7 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     bimodal_ = root.get("bimodal", false).asBool();
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
@@ -152,6 +152,8 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_ && dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension_input) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From 98eea394366f89d6a565865937b4cbd86d821e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 06/82] fix: assigning an attribute does not copy its listener

A templated assignment operator never replaces the implicit copy assignment,
so listeners were copied despite the documented warning. Parameters, Gaussian
distributions and training subsets were left with callbacks into other (often
destroyed) objects after an assignment or a JSON load.
---
 src/core/common/xmmAttribute.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..6dce847 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
-- 
2.43.0


From 1b2c5e220369dbb72ac5ebbf1b0a29c25d457467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 07/82] fix: copy-constructing a training set copies its
 phrases

The phrase map was initialised with the source's pointers, so the deep copy
that follows inserted nothing: both sets shared (and listened to) the same
phrases.
---
 src/core/trainingset/xmmTrainingSet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 1ff8c47..617a0f6 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
-- 
2.43.0


From bec0595956c1fd2796052dac77e60aa4042b6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 08/82] fix: training sets stop listening to phrases they no
 longer hold

A phrase that outlives its training set (shared pointer) called back into the
destroyed set when its label changed; removed or replaced phrases kept
notifying the set they had left.
---
 src/core/trainingset/xmmTrainingSet.cpp | 28 +++++++++++++++++++++----
 src/core/trainingset/xmmTrainingSet.hpp |  7 +++++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 617a0f6..2af91c2 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -127,7 +127,12 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() {
+    for (auto &phrase : phrases_) {
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+    }
+}
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -221,6 +226,7 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    detachPhrase(phraseIndex);
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -234,7 +240,9 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
+    std::shared_ptr<Phrase> newPhrase = std::make_shared<Phrase>(phrase);
+    detachPhrase(phraseIndex);
+    phrases_[phraseIndex] = newPhrase;
     phrases_[phraseIndex]->events.removeListeners();
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -243,14 +251,26 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    detachPhrase(phraseIndex);
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
     update();
 }
 
+void xmm::TrainingSet::detachPhrase(int phraseIndex) {
+    auto it = phrases_.find(phraseIndex);
+    if (it == phrases_.end()) return;
+    std::shared_ptr<Phrase> phrase = it->second;
+    phrases_.erase(it);
+    for (auto &p : phrases_) {
+        if (p.second == phrase) return;
+    }
+    phrase->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+}
+
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
-    phrases_.erase(phraseIndex);
+    detachPhrase(phraseIndex);
     update();
 }
 
@@ -271,7 +291,7 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 
 void xmm::TrainingSet::clear() {
     sub_training_sets_.clear();
-    phrases_.clear();
+    while (!phrases_.empty()) detachPhrase(phrases_.begin()->first);
     labels_.clear();
 }
 
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index 6fa03c6..7007cbe 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -319,6 +319,13 @@ class TrainingSet : public Writable {
      */
     virtual void onAttributeChange(AttributeBase* attr_pointer);
 
+    /**
+     @brief remove a phrase from the set, and stop listening to its events
+     (unless the set still holds the same phrase at another index)
+     @param phraseIndex index of the phrase
+     */
+    void detachPhrase(int phraseIndex);
+
     /**
      @brief create all the sub-training sets: one for each label
      @details each subset contains only the phrase for the given label
-- 
2.43.0


From 3e4a5b5fdb9afc02e470050306b6458318104729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 09/82] fix: class subsets follow a change of the training
 set's dimension

The subsets' dimension was changed silently, leaving their input-dimension
limit and column-name count behind: the next change of the input dimension or
column names of the training set then threw a domain_error.
---
 src/core/trainingset/xmmTrainingSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 2af91c2..c8a8660 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -152,7 +152,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension.set(dimension.get(), true);
+            it->second.dimension.set(dimension.get());
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
-- 
2.43.0


From e5b8cc09cd2b008e40a24a37e2e44594964c6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 10/82] fix: notify the training set when assignment or a JSON
 load changes a phrase's label

The set's labels and class subsets kept describing the old label.
---
 src/core/trainingset/xmmPhrase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index fabd6f6..cf0e7df 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -168,6 +168,7 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         input_length_ = src.input_length_;
         output_length_ = src.output_length_;
         column_names = src.column_names;
+        bool labelChanged = (label.get() != src.label.get());
         label = src.label;
 
         data_ = new float*[bimodal_ ? 2 : 1];
@@ -196,6 +197,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         dimension_input.onAttributeChange(this,
                                           &xmm::Phrase::onAttributeChange);
         label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
+        if (labelChanged) {
+            PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
+            events.notifyListeners(event);
+        }
     }
     return *this;
 }
-- 
2.43.0


From 435847f7f64b6f5a9860093fa166a5f2b145a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 11/82] fix: rescale the output modality of bimodal phrases in
 bounds

The output array was indexed with the total dimension index: it wrote past the
end of the array and left the first output columns unscaled.
---
 src/core/trainingset/xmmPhrase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index cf0e7df..8509bf4 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -521,8 +521,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
-- 
2.43.0


From 2dc26c1532f9eb8dd058bd22d71890446499bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 12/82] fix: JsonException::what() returned a dangling pointer

---
 src/core/common/xmmJson.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..d43ba09 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -190,7 +190,7 @@ class JsonException : public std::exception {
      @return exception message
      */
     virtual const char* what() const throw() {
-        std::string message;
+        std::string& message = message_;
         switch (errorType_) {
             case JsonErrorType::JsonMissingNode:
                 message = "Json Structure Error: Missing Node";
@@ -224,6 +224,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Storage for the message returned by what()
+     */
+    mutable std::string message_;
 };
 
 /**
-- 
2.43.0


From de857bacca9ecc08b4661d97be8fbb47df4bfd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 13/82] fix: reject JSON phrases and training sets with more
 column names than dimensions

The extra names were written past the end of the vector.
---
 src/core/trainingset/xmmPhrase.cpp      | 3 +++
 src/core/trainingset/xmmTrainingSet.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 8509bf4..15b2243 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -120,6 +120,9 @@ xmm::Phrase::Phrase(Json::Value const& root)
     data_[0] = NULL;
     if (bimodal_) data_[1] = NULL;
 
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     column_names.resize(dimension.get(), "");
     for (int i = 0; i < root["column_names"].size(); i++) {
         column_names[i] = root["column_names"].get(i, "").asString();
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index c8a8660..f857f79 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -85,6 +85,9 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < root["column_names"].size(); i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
-- 
2.43.0


From bfcd5d89d92e0bc536730b109ce0c56326d9ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 14/82] fix: check the sizes announced by a JSON phrase against
 its data

Negative dimensions or lengths wrapped to huge unsigned values, and a length x
dimension product that overflows 32 bits was accepted with an array too short
for the announced length.
---
 src/core/trainingset/xmmPhrase.cpp      | 26 ++++++++++++++++++++++---
 src/core/trainingset/xmmTrainingSet.cpp |  4 ++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 15b2243..bce35b3 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -34,6 +34,19 @@
 #include <limits>
 #include <algorithm>
 
+namespace {
+// Checks that a data array contains length * dim values.
+void checkArraySize(Json::Value const& root, std::string const& node,
+                    unsigned int length, unsigned int dim) {
+    if (!root[node].isArray())
+        throw xmm::JsonException(
+            xmm::JsonException::JsonErrorType::JsonTypeError, node);
+    if (root[node].size() != static_cast<unsigned long long>(length) * dim)
+        throw xmm::JsonException(
+            xmm::JsonException::JsonErrorType::JsonValueError, node);
+}
+}
+
 xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     : own_memory_(memoryMode == MemoryMode::OwnMemory),
       bimodal_(multimodality == Multimodality::Bimodal),
@@ -109,13 +122,13 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     bimodal_ = root.get("bimodal", false).asBool();
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt(), true);
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt(), true);
     if (bimodal_) {
         dimension_input.setLimits(1, dimension.get() - 1);
     } else {
         dimension_input.setLimits(0, 0);
     }
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt(), true);
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt(), true);
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
     if (bimodal_) data_[1] = NULL;
@@ -130,7 +143,14 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     label.set(root["label"].asString());
 
-    length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
+    length_ = root.get("length", 0).asUInt();
+    if (bimodal_) {
+        checkArraySize(root, "data_input", length_, dimension_input.get());
+        checkArraySize(root, "data_output", length_,
+                       dimension.get() - dimension_input.get());
+    } else {
+        checkArraySize(root, "data", length_, dimension.get());
+    }
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = length_;
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index f857f79..3a2fc42 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -83,8 +83,8 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
     if (root["column_names"].size() > dimension.get())
         throw JsonException(JsonException::JsonErrorType::JsonValueError,
                             "column_names");
-- 
2.43.0


From 06c613740bc55a07e96018996813ff629d282d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 15/82] fix: exchanging lines flips the sign of the determinant

---
 src/core/common/xmmMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..86d5966 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -300,6 +300,7 @@ class Matrix {
             // if found > Exchange lines
             if (i != k) {
                 mat.swap_lines(i, k);
+                *det = -*det;
             }
 
             new_mat._data = mat._data;
-- 
2.43.0


From 53454b62d20292263df610f7a13783a04348e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 16/82] fix: a resized matrix kept an iterator to its old
 storage

---
 src/core/common/xmmMatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 86d5966..3ec5f7d 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -151,6 +151,7 @@ class Matrix {
         nrows = nrows_;
         ncols = ncols_;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
@@ -163,6 +164,7 @@ class Matrix {
         nrows = nrows_;
         ncols = nrows;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
-- 
2.43.0


From 133b1fe49e217b13e94f156e87fbcc8172d03354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 17/82] fix: copies of a matrix kept an iterator into the
 source's storage

---
 src/core/common/xmmMatrix.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 3ec5f7d..f0b440e 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -141,6 +141,35 @@ class Matrix {
         data = data_it;
     }
 
+    /**
+     @brief Copy Constructor
+     @param src Source matrix
+     */
+    Matrix(Matrix const &src)
+        : nrows(src.nrows),
+          ncols(src.ncols),
+          _data(src._data),
+          data(src.data),
+          ownData(src.ownData) {
+        if (ownData) data = _data.begin();
+    }
+
+    /**
+     @brief Assignment
+     @param src Source matrix
+     */
+    Matrix &operator=(Matrix const &src) {
+        if (this != &src) {
+            nrows = src.nrows;
+            ncols = src.ncols;
+            _data = src._data;
+            data = src.data;
+            ownData = src.ownData;
+            if (ownData) data = _data.begin();
+        }
+        return *this;
+    }
+
     /**
      @brief Resize the matrix
      @param nrows_ Number of rows
-- 
2.43.0


From b208224aff94f838550ed230158941ce4be94c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 18/82] fix: memory leak in the pseudo-inverse of non-square
 matrices

---
 src/core/common/xmmMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index f0b440e..400fb43 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -271,7 +271,6 @@ class Matrix {
             }
         }
 
-        inverse = new Matrix<T>(ncols, nrows);
         Matrix<T> *transp, *prod, *dst;
         transp = this->transpose();
         if (nrows >= ncols) {
-- 
2.43.0


From 7f97afa94c2e43a7b163dd9ed19d463925fd0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 19/82] fix: setting the active covariance mode again corrupted
 the covariance

---
 src/core/distributions/xmmGaussianDistribution.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..b94c4eb 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -141,7 +141,12 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
         allocate();
     }
-    if (attr_pointer == &covariance_mode) {
+    // setting the mode that is already active leaves the covariance unchanged
+    if (attr_pointer == &covariance_mode &&
+        covariance.size() !=
+            ((covariance_mode.get() == CovarianceMode::Full)
+                 ? dimension.get() * dimension.get()
+                 : dimension.get())) {
         if (covariance_mode.get() == CovarianceMode::Diagonal) {
             std::vector<double> new_covariance(dimension.get());
             for (unsigned int d = 0; d < dimension.get(); ++d) {
-- 
2.43.0


From be3332918d9d154980c99e7b998de0d6bf12d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 20/82] fix: fromEllipse produced NaN variances for an ellipse
 of angle 0

---
 src/core/distributions/xmmGaussianDistribution.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index b94c4eb..27631a4 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -559,9 +559,11 @@ void xmm::GaussianDistribution::fromEllipse(Ellipse const& gaussian_ellipse,
         gaussian_ellipse.height * gaussian_ellipse.height / 5.991;
     double tantheta = std::tan(gaussian_ellipse.angle);
     double a, b, c;
-    b = (eigenVal1 - eigenVal2) * tantheta / (tantheta * tantheta + 1.);
-    c = eigenVal1 - b / tantheta;
-    a = eigenVal2 + b / tantheta;
+    double b_over_tantheta =
+        (eigenVal1 - eigenVal2) / (tantheta * tantheta + 1.);
+    b = b_over_tantheta * tantheta;
+    c = eigenVal1 - b_over_tantheta;
+    a = eigenVal2 + b_over_tantheta;
 
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance[dimension1 * dimension.get() + dimension1] = a;
-- 
2.43.0


From ba01d0f2f2e268b7e288c5c2e97e105c5212d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 21/82] fix: rounding turned the axis of nearly axis-aligned
 covariance ellipses

---
 .../distributions/xmmGaussianDistribution.cpp | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 27631a4..729b819 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -532,14 +532,16 @@ xmm::Ellipse xmm::GaussianDistribution::toEllipse(unsigned int dimension1,
 
     // Compute Eigen Values to get width, height and angle
     double trace = a + c;
-    double determinant = a * c - b * b;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double discriminant =
+        sqrt((a - c) * (a - c) + 4 * b * b);
+    double eigenVal1 = 0.5 * (trace + discriminant);
+    double eigenVal2 = 0.5 * (trace - discriminant);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(b / (eigenVal1 - c));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
+    if (b == 0.0) {
+        gaussian_ellipse.angle = (a > c) ? 0. : M_PI_2;
+    } else {
+        gaussian_ellipse.angle = 0.5 * atan2(2 * b, a - c);
     }
 
     return gaussian_ellipse;
@@ -696,14 +698,16 @@ xmm::Ellipse xmm::covariance2ellipse(double c_xx, double c_xy, double c_yy) {
 
     // Compute Eigen Values to get width, height and angle
     double trace = c_xx + c_yy;
-    double determinant = c_xx * c_yy - c_xy * c_xy;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double discriminant =
+        sqrt((c_xx - c_yy) * (c_xx - c_yy) + 4 * c_xy * c_xy);
+    double eigenVal1 = 0.5 * (trace + discriminant);
+    double eigenVal2 = 0.5 * (trace - discriminant);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(c_xy / (eigenVal1 - c_yy));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
+    if (c_xy == 0.0) {
+        gaussian_ellipse.angle = (c_xx > c_yy) ? 0. : M_PI_2;
+    } else {
+        gaussian_ellipse.angle = 0.5 * atan2(2 * c_xy, c_xx - c_yy);
     }
 
     return gaussian_ellipse;
-- 
2.43.0


From b3413e234cf0d408b08d04de3eb0416b918c5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 22/82] fix: Gaussian distributions with diagonal covariance
 could not be read from JSON

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 729b819..871ef03 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -95,15 +95,15 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
 
     json2vector(root["mean"], mean, dimension.get());
     json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(covariance.size()));
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(inverse_covariance_.size()));
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                static_cast<unsigned int>(inverse_covariance_input_.size()));
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
 
-- 
2.43.0


From cbe88ddcd2467a412172f3236c466b2bee87d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 23/82] fix: read the output covariance of a bimodal Gaussian
 from JSON

---
 src/core/distributions/xmmGaussianDistribution.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 871ef03..4d17686 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -106,6 +106,15 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
                 static_cast<unsigned int>(inverse_covariance_input_.size()));
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    if (bimodal_ && root["output_covariance"].size() > 0) {
+        unsigned int dimension_output = dimension.get() - dimension_input.get();
+        output_covariance.resize(
+            (covariance_mode.get() == CovarianceMode::Full)
+                ? dimension_output * dimension_output
+                : dimension_output);
+        json2vector(root["output_covariance"], output_covariance,
+                    static_cast<unsigned int>(output_covariance.size()));
+    }
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From 020e96289f8f62362ae7082540c6433f246e55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 24/82] fix: check the dimensions announced by a JSON Gaussian
 against its data

---
 src/core/distributions/xmmGaussianDistribution.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 4d17686..50ecfa1 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -86,8 +86,13 @@ xmm::GaussianDistribution::GaussianDistribution(GaussianDistribution const& src)
 xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
     : covariance_determinant_(0.), covariance_determinant_input_(0.) {
     bimodal_ = root.get("bimodal", false).asBool();
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.setLimitMin(bimodal_ ? 2 : 1);
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.setLimitMax(dimension.get() - 1);
+    dimension_input.set(
+        root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
+    if (root["mean"].size() != dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError);
     covariance_mode.set(
         static_cast<CovarianceMode>(root["covariance_mode"].asInt()));
 
-- 
2.43.0


From 579a13cd50a2685eabdaad13da9d18552205015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 25/82] fix: the input dimension of a Gaussian stays below its
 dimension

---
 src/core/distributions/xmmGaussianDistribution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 50ecfa1..bbdcd3c 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -151,6 +151,8 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
         allocate();
-- 
2.43.0


From 505e4c9de13e4ebcc2dcf372dcbfe75123d49f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 26/82] fix: sequential training removes failed classes, resets
 the model and sends the final event

---
 src/core/model/xmmModel.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..8cfb95d 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -292,12 +292,9 @@ class Model : public Writable {
                 it->second.train(trainingSet->getPhrasesOfClass(it->first));
             }
         }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
+        if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
     }
 
     /**
@@ -352,12 +349,9 @@ class Model : public Writable {
                 std::thread(&SingleClassModel::train, &(this->models[label]),
                             trainingSet->getPhrasesOfClass(label));
         }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
+        if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
     }
 
     /**
-- 
2.43.0


From 241c86483d0fcd661dc069c9218a6d3f131ad996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 27/82] fix: the classes of a copied model use the copy's
 shared parameters

---
 src/core/model/xmmModel.hpp            | 2 ++
 src/core/model/xmmModelSingleClass.hpp | 8 ++++++++
 src/models/hmm/xmmHmmSingleClass.cpp   | 8 ++++++++
 src/models/hmm/xmmHmmSingleClass.hpp   | 7 +++++++
 4 files changed, 25 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 8cfb95d..8881870 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -89,6 +89,7 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.setSharedParameters(shared_parameters);
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -145,6 +146,7 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.setSharedParameters(shared_parameters);
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cad4a34..cab72e7 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -205,6 +205,14 @@ class SingleClassProbabilisticModel : public Writable {
      */
     virtual ~SingleClassProbabilisticModel();
 
+    /**
+     @brief Set the shared parameters (owned by a Model)
+     @param p pointer to a shared parameters object
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+    }
+
     /** @name Training */
     ///@{
 
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..092745f 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -94,6 +94,14 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     return *this;
 }
 
+void xmm::SingleClassHMM::setSharedParameters(
+    std::shared_ptr<SharedParameters> p) {
+    SingleClassProbabilisticModel::setSharedParameters(p);
+    for (auto& state : states) {
+        state.setSharedParameters(p);
+    }
+}
+
 #pragma mark -
 #pragma mark Parameters initialization
 void xmm::SingleClassHMM::allocate() {
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..11d5f2a 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -79,6 +79,13 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      */
     SingleClassHMM& operator=(SingleClassHMM const& src);
 
+    /**
+     @brief Set the shared parameters (owned by a Model)
+     @param p pointer to a shared parameters object
+     */
+    void setSharedParameters(std::shared_ptr<SharedParameters> p);
+
+
     /** @name Accessors */
     ///@{
 
-- 
2.43.0


From a0a0ffacc0d388df8b847eacb7e8cbd1c95ed09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 28/82] fix: models read from JSON are ready to filter

---
 src/core/model/xmmModel.hpp           | 1 +
 src/models/gmm/xmmGmm.cpp             | 4 +++-
 src/models/hmm/xmmHierarchicalHmm.cpp | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 8881870..ee4c129 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -448,6 +448,7 @@ class Model : public Writable {
             Model<SingleClassModel, ModelType> tmp(root);
             *this = tmp;
             training_events = _tmp_training_events;
+            reset();
         } catch (JsonException& e) {
             throw e;
         }
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67c69dc..c566f32 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -39,7 +39,9 @@ xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
 xmm::GMM::GMM(GMM const& src)
     : Model<SingleClassGMM, GMM>(src), results(src.results) {}
 
-xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
+xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {
+    reset();
+}
 
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..277f3ee 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -58,6 +58,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     }
     exit_transition.resize(size());
     json2vector(root["exit_transition"], exit_transition, size());
+    reset();
 }
 
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
-- 
2.43.0


From c2220aa9cb4ea8ee522593fbfe3bb6152e0aa3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 29/82] fix: a hierarchical HMM keeps its listeners when it is
 read from JSON

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 277f3ee..edf65a9 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -520,8 +520,10 @@ Json::Value xmm::HierarchicalHMM::toJson() const {
 void xmm::HierarchicalHMM::fromJson(Json::Value const &root) {
     checkTraining();
     try {
+        EventGenerator<TrainingEvent> _tmp_training_events(training_events);
         HierarchicalHMM tmp(root);
         *this = tmp;
+        training_events = _tmp_training_events;
     } catch (JsonException &e) {
         throw e;
     }
-- 
2.43.0


From 430f9ddb7b21d24625d1f8ebf17cd1a2b85f979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 30/82] fix: copied and loaded classes use the likelihood
 window

---
 src/core/model/xmmModelSingleClass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..3cc7b5f 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -62,6 +62,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
         throw std::runtime_error("Cannot copy: target model is still training");
     if (src.is_training_)
         throw std::runtime_error("Cannot copy: source model is still training");
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
@@ -78,6 +79,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
     }
     label = root["label"].asString();
     training_status.label = label;
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel& xmm::SingleClassProbabilisticModel::
@@ -94,6 +96,8 @@ operator=(SingleClassProbabilisticModel const& src) {
         shared_parameters = src.shared_parameters;
         is_training_ = false;
         cancel_training_ = false;
+        likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
+        likelihood_buffer_.clear();
     }
     return *this;
 };
-- 
2.43.0


From 67c0de5f4d9b831f7af0c9875f47fe6c231f2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 31/82] fix: assigning HMM parameters copies the hierarchical
 attribute

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..e5bb122 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From bb90e8b0dd9caeb990359d73f52eb5a28b9ff28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 32/82] fix: read double-precision parameters from JSON in
 double precision

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..1abcfa9 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -95,7 +95,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index e5bb122..cbc058e 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
-- 
2.43.0


From 6501947a1bbf870f27dc9f951971fb83e3fab997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 33/82] fix: a bimodal model can be set back to unimodal

---
 src/core/model/xmmModelSharedParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 1abcfa9..80ec859 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -151,6 +151,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         } else {
             dimension.setLimitMin(1);
             if (dimension.get() < 1) dimension.set(1);
+            dimension_input.setLimitMin(0);
             dimension_input.setLimitMax(0);
             dimension_input.set(0);
         }
-- 
2.43.0


From debdb4e5aa89659623dc814c746ae8be8164d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 34/82] fix: a training set with an invalid dimension no longer
 leaves the model stuck in training

---
 src/core/model/xmmModel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index ee4c129..11b19fc 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -250,8 +250,6 @@ class Model : public Writable {
         cancelTraining();
         clear();
 
-        is_training_ = true;
-
         // Fetch training set parameters
         shared_parameters->dimension.set(trainingSet->dimension.get());
         if (shared_parameters->bimodal.get()) {
@@ -278,6 +276,8 @@ class Model : public Writable {
             addModelForClass(*it);
         }
 
+        is_training_ = true;
+
         // Start class training
         for (auto it = this->models.begin(); it != this->models.end(); ++it) {
             it->second.is_training_ = true;
@@ -328,8 +328,6 @@ class Model : public Writable {
                     "models");
         }
 
-        is_training_ = true;
-
         // Fetch training set parameters
         shared_parameters->dimension.set(trainingSet->dimension.get());
         if (shared_parameters->bimodal.get()) {
@@ -340,6 +338,8 @@ class Model : public Writable {
 
         addModelForClass(label);
 
+        is_training_ = true;
+
         // Start class training
         models[label].is_training_ = true;
         models[label].cancel_training_ = false;
-- 
2.43.0


From 6c0f64cd009681bcca2b24dec6b5460bea7b77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 35/82] fix: ergodic HMM forward initialisation sizes its state
 probabilities

---
 src/models/hmm/xmmHmmSingleClass.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 092745f..7c0992a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -348,6 +348,7 @@ double xmm::SingleClassHMM::forward_init(const float* observation,
     unsigned int numStates = parameters.states.get();
 
     double norm_const(0.);
+    alpha.resize(numStates);
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
         for (int i = 0; i < numStates; i++) {
             if (shared_parameters->bimodal.get()) {
-- 
2.43.0


From 7c3b64950f0987a9e61965dbbc82fd97e65647cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 36/82] fix: HMM classes start with the forward algorithm
 uninitialised

---
 src/models/hmm/xmmHmmSingleClass.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 7c0992a..5ffe0c0 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -33,7 +33,9 @@
 #include "xmmHmmSingleClass.hpp"
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p)
-    : SingleClassProbabilisticModel(p), is_hierarchical_(true) {}
+    : SingleClassProbabilisticModel(p),
+      forward_initialized_(false),
+      is_hierarchical_(true) {}
 
 xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
     : SingleClassProbabilisticModel(src),
@@ -41,6 +43,7 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
       states(src.states),
       prior(src.prior),
       transition(src.transition),
+      forward_initialized_(false),
       is_hierarchical_(src.is_hierarchical_),
       exit_probabilities_(src.exit_probabilities_) {
     alpha.resize(parameters.states.get());
@@ -51,7 +54,9 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
-    : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
+    : SingleClassProbabilisticModel(p, root),
+      forward_initialized_(false),
+      is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
     allocate();
@@ -79,6 +84,7 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     if (this != &src) {
         SingleClassProbabilisticModel::operator=(src);
 
+        forward_initialized_ = false;
         is_hierarchical_ = src.is_hierarchical_;
         parameters = src.parameters;
         transition = src.transition;
-- 
2.43.0


From 5b2d71cec7c700cab07d14e0f620a1305c7b83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 37/82] fix: mixture regression with classes of different
 covariance modes

---
 src/models/gmm/xmmGmm.cpp             | 17 ++++++++++++-----
 src/models/hmm/xmmHierarchicalHmm.cpp | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index c566f32..ceeb82b 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -140,23 +140,30 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
 
             int i(0);
             for (auto& model : models) {
+                // a class can have its own covariance mode
+                bool class_is_full(
+                    model.second.parameters.covariance_mode.get() ==
+                    GaussianDistribution::CovarianceMode::Full);
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
-                        for (int d2 = 0; d2 < dimension_output; d2++)
+                        for (int d2 = 0; d2 < dimension_output; d2++) {
+                            if (!class_is_full && d != d2) continue;
                             results
                                 .output_covariance[d * dimension_output + d2] +=
                                 results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
+                                model.second.results.output_covariance
+                                    [class_is_full ? d * dimension_output + d2
+                                                   : d];
+                        }
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [class_is_full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index edf65a9..5a48d5d 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -436,24 +436,30 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
 
             int i(0);
             for (auto &model : models) {
+                // a class can have its own covariance mode
+                bool class_is_full(
+                    model.second.parameters.covariance_mode.get() ==
+                    GaussianDistribution::CovarianceMode::Full);
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
-
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
-                        for (int d2 = 0; d2 < dimension_output; d2++)
+                        for (int d2 = 0; d2 < dimension_output; d2++) {
+                            if (!class_is_full && d != d2) continue;
                             results
                                 .output_covariance[d * dimension_output + d2] +=
                                 results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
+                                model.second.results.output_covariance
+                                    [class_is_full ? d * dimension_output + d2
+                                                   : d];
+                        }
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [class_is_full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
-- 
2.43.0


From 0f860424f2f89abb10c189415f4a77cace7965e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 38/82] fix: non-hierarchical HMMs smooth each frame's
 likelihood once

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 5a48d5d..0778300 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -395,6 +395,11 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         } else {
             this->forward_init(observation);
         }
+        // Compute time progression
+        for (auto &model : models) {
+            model.second.updateAlphaWindow();
+            model.second.updateResults();
+        }
     } else {
         int i(0);
         for (auto &model : models) {
@@ -403,11 +408,6 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         }
     }
 
-    // Compute time progression
-    for (auto &model : models) {
-        model.second.updateAlphaWindow();
-        model.second.updateResults();
-    }
     updateResults();
 
     if (shared_parameters->bimodal.get()) {
-- 
2.43.0


From 5db52ab9c9e6baa98a99a556180fb4b636adede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 39/82] fix: the first frame of hierarchical recognition starts
 from zeroed results

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 0778300..fbfa152 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -156,6 +156,10 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
             model.second.alpha_h[i].assign(N, 0.0);
         }
 
+        model.second.results.instant_likelihood = 0.0;
+        model.second.results.exit_likelihood = 0.0;
+        model.second.results.exit_ratio = 0.0;
+
         // Compute Emission probability and initialize on the first state of
         // the
         // primitive
-- 
2.43.0


From 03a5b5ef63bfdfbbf71b6204f0d8ea09d08bdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 40/82] fix: ergodic classes use their class prior on the first
 frame

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index fbfa152..61f4f0a 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -168,11 +168,11 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
             for (int i = 0; i < model.second.parameters.states.get(); i++) {
                 if (shared_parameters->bimodal.get()) {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb_input(&observation[0]);
                 } else {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb(&observation[0]);
                 }
                 model.second.results.instant_likelihood +=
-- 
2.43.0


From afab429d08e70910bc282115a57f9cf5ad39f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 41/82] fix: class results are initialised

---
 src/core/model/xmmModelResults.hpp |  4 ++--
 src/models/hmm/xmmHmmResults.hpp   | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/model/xmmModelResults.hpp b/src/core/model/xmmModelResults.hpp
index c65fd38..0e7ce74 100644
--- a/src/core/model/xmmModelResults.hpp
+++ b/src/core/model/xmmModelResults.hpp
@@ -48,12 +48,12 @@ struct ClassResults {
     /**
      @brief Instantaneous likelihood
      */
-    double instant_likelihood;
+    double instant_likelihood = 0.0;
 
     /**
      @brief Cumulative log-likelihood computed on a sliding window
      */
-    double log_likelihood;
+    double log_likelihood = 0.0;
 
     /**
      @brief Predicted Output parameter vector (only used in regression mode)
diff --git a/src/models/hmm/xmmHmmResults.hpp b/src/models/hmm/xmmHmmResults.hpp
index 633df90..b1a237d 100644
--- a/src/models/hmm/xmmHmmResults.hpp
+++ b/src/models/hmm/xmmHmmResults.hpp
@@ -45,12 +45,12 @@ struct ClassResults<HMM> {
     /**
      @brief Instantaneous likelihood
      */
-    double instant_likelihood;
+    double instant_likelihood = 0.0;
 
     /**
      @brief Cumulative log-likelihood computed on a sliding window
      */
-    double log_likelihood;
+    double log_likelihood = 0.0;
 
     /**
      @brief Predicted Output parameter vector (only used in regression mode)
@@ -70,23 +70,23 @@ struct ClassResults<HMM> {
      @details The time progression is computed as the centroid of the state
      probability distribution estimated by the forward algorithm
      */
-    double progress;
+    double progress = 0.0;
 
     /**
      @brief Likelihood to exit the gesture on the next time step
      */
-    double exit_likelihood;
+    double exit_likelihood = 0.0;
 
     /**
      @brief Likelihood to exit the gesture on the next time step (normalized -/-
      total likelihood)
      */
-    double exit_ratio;
+    double exit_ratio = 0.0;
 
     /**
      @brief Index of the likeliest state
      */
-    unsigned int likeliest_state;
+    unsigned int likeliest_state = 0;
 };
 }
 
-- 
2.43.0


From 8f25db33b6fe57f7f1b4618c090ffb370bff25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 42/82] fix: windowed regression of single-state HMMs

---
 src/models/hmm/xmmHmmSingleClass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 5ffe0c0..7e76407 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1201,6 +1201,9 @@ void xmm::SingleClassHMM::updateAlphaWindow() {
     window_maxindex_ = (window_maxindex_ <= static_cast<int>(numStates))
                            ? window_maxindex_
                            : static_cast<int>(numStates);
+    // the window always contains the likeliest state (models with 1 state)
+    if (window_maxindex_ <= static_cast<int>(results.likeliest_state))
+        window_maxindex_ = static_cast<int>(results.likeliest_state) + 1;
     window_normalization_constant_ = 0.0;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
         window_normalization_constant_ +=
-- 
2.43.0


From c889017f057d6c4310c99e5f4d15167ae5e53889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 43/82] fix: the progress of hierarchical HMM classes stays
 within [0, 1]

---
 src/models/hmm/xmmHmmSingleClass.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 7e76407..8a5e5ee 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1312,9 +1312,8 @@ void xmm::SingleClassHMM::updateResults() {
     results.progress = 0.0;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
         if (is_hierarchical_)
-            results.progress +=
-                (alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i]) * i /
-                window_normalization_constant_;
+            results.progress += (alpha_h[0][i] + alpha_h[1][i]) * i /
+                                window_normalization_constant_;
         else
             results.progress += alpha[i] * i / window_normalization_constant_;
     }
-- 
2.43.0


From eb4d6e5952c336dfb1d5b701952f6ce04c17a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 44/82] fix: HMM regression with the likeliest state reports
 its covariance

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 8a5e5ee..68734c0 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1231,6 +1231,8 @@ void xmm::SingleClassHMM::regression(
         states[results.likeliest_state].regression(observation_input);
         results.output_values =
             states[results.likeliest_state].results.output_values;
+        results.output_covariance =
+            states[results.likeliest_state].results.output_covariance;
         return;
     }
 
-- 
2.43.0


From 874ffe1500357761136298cf8a51ed8e371aa28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 45/82] fix: full HMM regression is normalised per class in
 hierarchical models

---
 src/models/hmm/xmmHmmSingleClass.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 68734c0..9a3e8cc 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1249,6 +1249,15 @@ void xmm::SingleClassHMM::regression(
                                         ? 1.0
                                         : window_normalization_constant_;
 
+    // in a hierarchical model, the state probabilities are normalized over all
+    // classes
+    if (is_hierarchical_ && parameters.regression_estimator.get() ==
+                                HMM::RegressionEstimator::Full) {
+        normalization_constant = 0.0;
+        for (unsigned int i = clip_min_state; i < clip_max_state; ++i)
+            normalization_constant += alpha_h[0][i] + alpha_h[1][i];
+    }
+
     if (normalization_constant <= 0.0) normalization_constant = 1.;
 
     // Compute Regression
-- 
2.43.0


From ddc3da12eda757138cf7127a5b33b90b750d0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 46/82] fix: windowed HMM regression squares the normalised
 weights of covariances

---
 src/models/hmm/xmmHmmSingleClass.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 9a3e8cc..f0160a8 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1279,13 +1279,13 @@ void xmm::SingleClassHMM::regression(
                             states[i]
                                 .results
                                 .output_covariance[d * dimension_output + d2] /
-                            normalization_constant;
+                            (normalization_constant * normalization_constant);
                 } else {
                     results.output_covariance[d] +=
                         (alpha_h[0][i] + alpha_h[1][i]) *
                         (alpha_h[0][i] + alpha_h[1][i]) *
                         states[i].results.output_covariance[d] /
-                        normalization_constant;
+                        (normalization_constant * normalization_constant);
                 }
             } else {
                 results.output_values[d] +=
@@ -1298,13 +1298,13 @@ void xmm::SingleClassHMM::regression(
                             states[i]
                                 .results
                                 .output_covariance[d * dimension_output + d2] /
-                            normalization_constant;
+                            (normalization_constant * normalization_constant);
 
                 } else {
                     results.output_covariance[d] +=
                         alpha[i] * alpha[i] *
                         states[i].results.output_covariance[d] /
-                        normalization_constant;
+                        (normalization_constant * normalization_constant);
                 }
             }
         }
-- 
2.43.0


From 20c3935388385e83bd97ae390f57d103582000f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 47/82] fix: training an ergodic HMM skips empty phrases when
 estimating the prior

---
 src/models/hmm/xmmHmmSingleClass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index f0160a8..4d5d185 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -995,6 +995,10 @@ void xmm::SingleClassHMM::baumWelch_estimatePrior(TrainingSet* trainingSet) {
     double sumprior = 0.;
     int phraseIndex(0);
     for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); it++) {
+        if (it->second->size() == 0) {
+            phraseIndex++;
+            continue;
+        }
         for (int i = 0; i < numStates; i++) {
             prior[i] += gamma_sequence_[phraseIndex][i];
             sumprior += gamma_sequence_[phraseIndex][i];
-- 
2.43.0


From aa8e74f9f078b32cc1836e62e5e4f164278e0c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 48/82] fix: retraining an HMM class with another number of
 states resets its exit probabilities

---
 src/models/hmm/xmmHmmSingleClass.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 4d5d185..28f8b55 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -135,7 +135,9 @@ void xmm::SingleClassHMM::allocate() {
     for (auto& state : states) {
         state.allocate();
     }
-    if (is_hierarchical_) updateExitProbabilities(NULL);
+    if (exit_probabilities_.size() != numStates)
+        exit_probabilities_.assign(numStates, 0.0);
+    exit_probabilities_[numStates - 1] = DEFAULT_EXITPROBABILITY_LAST_STATE();
 }
 
 void xmm::SingleClassHMM::initParametersToDefault(
-- 
2.43.0


From e3b801dbf398cbb2dc51439942ef508b8b71c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 49/82] fix: classes can be added to and removed from
 non-hierarchical HMMs

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 61f4f0a..5599fed 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -135,7 +135,8 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        model.second.updateExitProbabilities();
+        if (model.second.is_hierarchical_)
+            model.second.updateExitProbabilities();
     }
 }
 
-- 
2.43.0


From 8f4073b2eb05b1bb9d012476f1b1a06438a35efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 50/82] fix: unlikely classes of hierarchical HMMs no longer
 produce NaN results

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 6 ++++--
 src/models/hmm/xmmHmmSingleClass.cpp  | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 5599fed..8dced71 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -316,8 +316,10 @@ void xmm::HierarchicalHMM::forward_update(
         }
 
         dstModel.second.results.exit_ratio =
-            dstModel.second.results.exit_likelihood /
-            dstModel.second.results.instant_likelihood;
+            (dstModel.second.results.instant_likelihood > 0.0)
+                ? dstModel.second.results.exit_likelihood /
+                      dstModel.second.results.instant_likelihood
+                : 0.0;
 
         dst_model_index++;
     }
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 28f8b55..4d3eed4 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1318,7 +1318,9 @@ void xmm::SingleClassHMM::regression(
 }
 
 void xmm::SingleClassHMM::updateResults() {
-    likelihood_buffer_.push(log(results.instant_likelihood));
+    // the likelihood of a class can underflow in hierarchical models
+    likelihood_buffer_.push(log(std::max(results.instant_likelihood,
+                                         std::numeric_limits<double>::min())));
     results.log_likelihood = 0.0;
     unsigned int bufSize = likelihood_buffer_.size_t();
     for (unsigned int i = 0; i < bufSize; i++) {
@@ -1327,6 +1329,7 @@ void xmm::SingleClassHMM::updateResults() {
     results.log_likelihood /= double(bufSize);
 
     results.progress = 0.0;
+    if (window_normalization_constant_ <= 0.0) return;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
         if (is_hierarchical_)
             results.progress += (alpha_h[0][i] + alpha_h[1][i]) * i /
-- 
2.43.0


From 89a3cbc97bcd9193f41f4b39c4d0a676171370b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 51/82] fix: states of ergodic HMMs that are never left get
 uniform transitions

---
 src/models/hmm/xmmHmmSingleClass.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 4d3eed4..e3e358b 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -337,7 +337,10 @@ void xmm::SingleClassHMM::normalizeTransitions() {
             for (int j = 0; j < numStates; j++)
                 norm_transition += transition[i * numStates + j];
             for (int j = 0; j < numStates; j++)
-                transition[i * numStates + j] /= norm_transition;
+                transition[i * numStates + j] =
+                    (norm_transition > 0.)
+                        ? transition[i * numStates + j] / norm_transition
+                        : 1. / double(numStates);
         }
         for (int i = 0; i < numStates; i++) prior[i] /= norm_prior;
     } else {
-- 
2.43.0


From 0346d2d35ab768114c7c48ecfb9bcebf86e5b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 52/82] fix: GMM classes reject JSON with a wrong number of
 components

---
 src/models/gmm/xmmGmmSingleClass.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..2590c9b 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -49,6 +49,12 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
     : SingleClassProbabilisticModel(p, root) {
     parameters.fromJson(root["parameters"]);
+    if (!root["components"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "components");
+    if (root["components"].size() != parameters.gaussians.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "components");
 
     allocate();
 
-- 
2.43.0


From 54c60703dd71956319ad328097bb8c22df2447ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:38 +0000
Subject: [PATCH 53/82] fix: HMM classes reject JSON with a wrong number of
 states

---
 src/models/hmm/xmmHmmSingleClass.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index e3e358b..0bd0582 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -58,6 +58,17 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
       forward_initialized_(false),
       is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
+    if (!root["states"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "states");
+    if (root["states"].size() != parameters.states.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
+    for (auto p : root["states"]) {
+        if (p["components"].size() != parameters.gaussians.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "components");
+    }
 
     allocate();
 
-- 
2.43.0


From 7047d1b2f733a3946136887d09dd111dee78c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 54/82] fix: copied KMeans models keep their shared parameters
 and results

---
 src/models/kmeans/xmmKMeans.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..9aa2c07 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,14 +48,20 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
+      results(src.results),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
         initialization_mode = src.initialization_mode;
+        shared_parameters =
+            std::make_shared<SharedParameters>(*src.shared_parameters);
         configuration = src.configuration;
+        results = src.results;
         centers = src.centers;
     }
     return *this;
-- 
2.43.0


From da3d7ec2edf44e2798cce6b377f355f25516bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 55/82] fix: KMeans filtering without a reset or a training
 does not access memory out of bounds

---
 src/models/kmeans/xmmKMeans.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 9aa2c07..bc5a208 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -210,6 +210,9 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
+    if (centers.size() != configuration.clusters.get() * dimension)
+        throw std::runtime_error("The model needs to be trained");
+    results.distances.resize(configuration.clusters.get(), 0.0);
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
     for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
-- 
2.43.0


From 3377818646003d11996c091bc8d3090428813398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 56/82] fix: KMeans clusters without frames keep their center

---
 src/models/kmeans/xmmKMeans.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index bc5a208..c2cd812 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -198,6 +198,11 @@ void xmm::KMeans::updateCenters(std::vector<float>& previous_centers,
             for (unsigned int d = 0; d < dimension; ++d) {
                 centers[k * dimension + d] /= float(numFramesPerCluster[k]);
             }
+        else
+            for (unsigned int d = 0; d < dimension; ++d) {
+                centers[k * dimension + d] =
+                    previous_centers[k * dimension + d];
+            }
     }
 }
 
-- 
2.43.0


From 5b71f5ee9862348c661de7d0c628ea8445974010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:37 +0000
Subject: [PATCH 57/82] fix: resizing a circular buffer keeps its most recent
 elements

---
 src/core/common/xmmCircularbuffer.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/common/xmmCircularbuffer.hpp b/src/core/common/xmmCircularbuffer.hpp
index c435761..3cc1feb 100644
--- a/src/core/common/xmmCircularbuffer.hpp
+++ b/src/core/common/xmmCircularbuffer.hpp
@@ -141,16 +141,20 @@ class CircularBuffer {
      */
     void resize(unsigned int length) {
         if (length == length_) return;
-        if (length > length_) {
-            full_ = false;
-        } else if (current_index_ >= length) {
-            full_ = true;
-            current_index_ = 0;
-        }
-        length_ = length;
+        // keep the most recent elements, oldest first
+        unsigned int available = size_t();
+        unsigned int kept = (available < length) ? available : length;
+        unsigned int first = (full_ ? current_index_ : 0) + available - kept;
         for (int c = 0; c < channels; c++) {
-            data_[c].resize(length_);
+            std::vector<T> tmp(length);
+            for (unsigned int i = 0; i < kept; i++) {
+                tmp[i] = data_[c][(first + i) % length_];
+            }
+            data_[c] = tmp;
         }
+        length_ = length;
+        full_ = (kept == length);
+        current_index_ = full_ ? 0 : kept;
     }
 
     /**
-- 
2.43.0


From 54ef35eb2da98316129ddd269dfb6f2cbe518521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 58/82] fix: KMeans models are written to and read from JSON

---
 src/models/kmeans/xmmKMeans.cpp | 67 ++++++++++-----------------------
 1 file changed, 19 insertions(+), 48 deletions(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index c2cd812..d715943 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -233,57 +233,28 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
 #pragma mark -
 #pragma mark File IO
 Json::Value xmm::KMeans::toJson() const {
-    //    JSONNode json_model(JSON_NODE);
-    //    json_model.set_name("KMeans");
-    //
-    //    json_model.push_back(JSONNode("dimension", dimension_));
-    //    json_model.push_back(JSONNode("nbclusters", nbClusters_));
-    //    json_model.push_back(vector2json(centers, "centers"));
-
-    return Json::Value();
+    Json::Value root;
+    root["shared_parameters"] = shared_parameters->toJson();
+    root["configuration"] = configuration.toJson();
+    root["initialization_mode"] = static_cast<int>(initialization_mode);
+    root["centers"] = vector2json(centers);
+    return root;
 }
 
 void xmm::KMeans::fromJson(Json::Value const& root) {
-    //    try {
-    //        if (root.type() != JSON_NODE)
-    //            throw JSONException("Wrong type: was expecting 'JSON_NODE'",
-    //            root.name());
-    //        JSONNode::const_iterator root_it = root.begin();
-    //
-    //        // Get Dimension
-    //        root_it = root.find("dimension");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_NUMBER)
-    //            throw JSONException("Wrong type for node 'dimension': was
-    //            expecting 'JSON_NUMBER'", root_it->name());
-    //        dimension_ = static_cast<unsigned int>(root_it->as_int());
-    //
-    //        // Get Number of Clusters
-    //        root_it = root.find("nbclusters");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_NUMBER)
-    //            throw JSONException("Wrong type for node 'nbclusters': was
-    //            expecting 'JSON_NUMBER'", root_it->name());
-    //        nbClusters_ = static_cast<unsigned int>(root_it->as_int());
-    //
-    //        // Get Cluster Centers
-    //        root_it = root.find("centers");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_ARRAY)
-    //            throw JSONException("Wrong type for node 'centers': was
-    //            expecting 'JSON_ARRAY'", root_it->name());
-    //        json2vector(*root_it, centers, nbClusters_);
-    //    } catch (JSONException &e) {
-    //        throw JSONException(e, root.name());
-    //    } catch (std::exception &e) {
-    //        throw JSONException(e, root.name());
-    //    }
+    KMeans tmp;
+    tmp.shared_parameters->fromJson(root["shared_parameters"]);
+    tmp.configuration.fromJson(root["configuration"]);
+    tmp.initialization_mode = static_cast<InitializationMode>(
+        root.get("initialization_mode", 0).asInt());
+    // an untrained model has no centers
+    if (!root["centers"].empty()) {
+        tmp.centers.resize(root["centers"].size());
+        json2vector(root["centers"], tmp.centers,
+                    tmp.configuration.clusters.get() *
+                        tmp.shared_parameters->dimension.get());
+    }
+    *this = tmp;
 }
 
 #pragma mark > Utility
-- 
2.43.0


From 2088abab9e4a87d1508b272a1307ae9146d52766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 59/82] fix: the training flags of classes are shared between
 threads

---
 src/core/model/xmmModelSingleClass.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cab72e7..36cbc6c 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -39,6 +39,7 @@
 #include "../trainingset/xmmTrainingSet.hpp"
 #include "xmmModelSharedParameters.hpp"
 #include <memory>
+#include <atomic>
 #include <mutex>
 
 namespace xmm {
@@ -368,12 +369,12 @@ class SingleClassProbabilisticModel : public Writable {
     /**
      @brief defines if the model is being trained.
      */
-    bool is_training_;
+    std::atomic<bool> is_training_;
 
     /**
      @brief defines if the model received a request to cancel training
      */
-    bool cancel_training_;
+    std::atomic<bool> cancel_training_;
 };
 }
 
-- 
2.43.0


From c63c5198f7ff225af4121c5a9b97f6831e52080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:26 +0000
Subject: [PATCH 60/82] fix: background training joins, cancels and finishes
 without races

---
 src/core/model/xmmModel.hpp           | 305 ++++++++++++++++++--------
 src/models/gmm/xmmGmm.cpp             |   6 +-
 src/models/gmm/xmmGmm.hpp             |  10 +
 src/models/hmm/xmmHierarchicalHmm.cpp |  16 +-
 src/models/hmm/xmmHierarchicalHmm.hpp |  17 +-
 5 files changed, 253 insertions(+), 101 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 11b19fc..b8a7bbb 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -60,6 +60,8 @@ class Model : public Writable {
           cancel_required_(false),
           is_training_(false),
           is_joining_(false),
+          background_training_(false),
+          background_joins_(0),
           models_still_training_(0) {
         shared_parameters->bimodal.set(bimodal);
         if (shared_parameters->bimodal.get()) {
@@ -83,6 +85,8 @@ class Model : public Writable {
           cancel_required_(false),
           is_training_(false),
           is_joining_(false),
+          background_training_(false),
+          background_joins_(0),
           models_still_training_(0) {
         if (src.is_training_)
             throw std::runtime_error(
@@ -106,6 +110,8 @@ class Model : public Writable {
           cancel_required_(false),
           is_training_(false),
           is_joining_(false),
+          background_training_(false),
+          background_joins_(0),
           models_still_training_(0) {
         shared_parameters->fromJson(root["shared_parameters"]);
         configuration.fromJson(root["configuration"]);
@@ -160,7 +166,7 @@ class Model : public Writable {
      @brief Destructor
      */
     virtual ~Model() {
-        cancelTraining();
+        stopTraining();
         clear();
     }
 
@@ -209,12 +215,19 @@ class Model : public Writable {
     virtual void removeClass(std::string const& label) {
         while (is_joining_) {
         }
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            if (models.count(label) == 0)
+                throw std::out_of_range("Class " + label + " does not exist");
+        }
         cancelTraining(label);
-        auto it = models.find(label);
-        if (it == models.end())
-            throw std::out_of_range("Class " + label + " does not exist");
-        models.erase(it);
-        reset();
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            models.erase(label);
+        }
+        // if other classes are still training, the model is reset at the end
+        // of the training
+        if (!is_training_) reset();
     }
 
     /**
@@ -276,25 +289,24 @@ class Model : public Writable {
             addModelForClass(*it);
         }
 
-        is_training_ = true;
-
         // Start class training
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.is_training_ = true;
-            it->second.cancel_training_ = false;
-            models_still_training_++;
-            if ((configuration.multithreading ==
-                 MultithreadingMode::Parallel) ||
-                (configuration.multithreading ==
-                 MultithreadingMode::Background)) {
-                training_threads_[it->first] =
-                    std::thread(&SingleClassModel::train, &it->second,
-                                trainingSet->getPhrasesOfClass(it->first));
-            } else {
-                it->second.train(trainingSet->getPhrasesOfClass(it->first));
+        MultithreadingMode mode = configuration.multithreading;
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            for (auto& model : models) prepareTraining(model.first);
+            if (mode != MultithreadingMode::Sequential) {
+                for (auto& model : models)
+                    training_threads_[model.first] = std::thread(
+                        &SingleClassModel::train, &model.second,
+                        trainingSet->getPhrasesOfClass(model.first));
             }
         }
-        if (configuration.multithreading != MultithreadingMode::Background) {
+        if (mode == MultithreadingMode::Sequential) {
+            for (auto& model : models)
+                model.second.train(
+                    trainingSet->getPhrasesOfClass(model.first));
+        }
+        if (mode != MultithreadingMode::Background) {
             joinTraining();
         }
     }
@@ -316,6 +328,14 @@ class Model : public Writable {
         // Cancel Training of the class
         cancelTraining(label);
 
+        // Other classes can be training in background
+        std::unique_lock<std::mutex> lock(event_mutex_);
+        while (is_joining_) {
+            lock.unlock();
+            std::this_thread::yield();
+            lock.lock();
+        }
+
         // Check Consistency of the new Training Set
         if (size() > 0) {
             if ((shared_parameters->dimension.get() !=
@@ -329,29 +349,31 @@ class Model : public Writable {
         }
 
         // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
+        if (!is_training_) {
+            shared_parameters->dimension.set(trainingSet->dimension.get());
+            if (shared_parameters->bimodal.get()) {
+                shared_parameters->dimension_input.set(
+                    trainingSet->dimension_input.get());
+            }
+            shared_parameters->column_names.set(
+                trainingSet->column_names.get());
         }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
 
         addModelForClass(label);
 
-        is_training_ = true;
-
         // Start class training
-        models[label].is_training_ = true;
-        models[label].cancel_training_ = false;
-        models_still_training_++;
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            models[label].train(trainingSet->getPhrasesOfClass(label));
-        } else {
+        MultithreadingMode mode = configuration.multithreading;
+        prepareTraining(label);
+        if (mode != MultithreadingMode::Sequential) {
             training_threads_[label] =
                 std::thread(&SingleClassModel::train, &(this->models[label]),
                             trainingSet->getPhrasesOfClass(label));
         }
-        if (configuration.multithreading != MultithreadingMode::Background) {
+        lock.unlock();
+        if (mode == MultithreadingMode::Sequential) {
+            models[label].train(trainingSet->getPhrasesOfClass(label));
+        }
+        if (mode != MultithreadingMode::Background) {
             joinTraining();
         }
     }
@@ -360,14 +382,20 @@ class Model : public Writable {
      @brief Cancels the training of all models
      */
     void cancelTraining() {
-        if (is_training_) {
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            if (!is_training_) return;
+            cancel_required_ = true;
             for (auto& it : this->models) {
-                cancel_required_ = true;
                 it.second.cancelTraining();
-                while (it.second.isTraining()) {
-                }
             }
+        }
+        if (background_training_) {
             joinTraining();
+        } else {
+            // the classes are joined by the thread that called "train"
+            while (is_training_) {
+            }
         }
         cancel_required_ = false;
     }
@@ -377,16 +405,36 @@ class Model : public Writable {
      @param label label of the class to cancel
      */
     void cancelTraining(std::string const& label) {
-        if (is_training_ && (this->models.count(label) > 0)) {
+        std::thread training_thread;
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            if (!is_training_ || models.count(label) == 0) return;
             cancel_required_ = true;
-            models[label].cancelTraining();
-            while (models[label].isTraining()) {
+            models.at(label).cancelTraining();
+            auto it = training_threads_.find(label);
+            if (it != training_threads_.end()) {
+                training_thread = std::move(it->second);
+                training_threads_.erase(it);
             }
-            if (models_still_training_ == 0) {
-                joinTraining();
+        }
+        if (training_thread.joinable()) {
+            training_thread.join();
+        } else {
+            bool classIsTraining(true);
+            while (classIsTraining) {
+                std::lock_guard<std::mutex> lock(event_mutex_);
+                classIsTraining =
+                    models.count(label) > 0 && models.at(label).isTraining();
             }
         }
-        cancel_required_ = false;
+        bool allClassesFinished(false);
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            cancel_required_ = false;
+            allClassesFinished =
+                background_training_ && models_still_training_ == 0;
+        }
+        if (allClassesFinished) joinTraining();
     }
 
     ///@}
@@ -400,9 +448,7 @@ class Model : public Writable {
     virtual void reset() {
         checkTraining();
         // checkConfigurationChanges();
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.reset();
-        }
+        resetResults();
     }
 
     /**
@@ -478,40 +524,109 @@ class Model : public Writable {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
+     @brief Registers a class for training
+     @warning event_mutex_ must be locked by the caller
+     @param label label of the class to train
      */
-    virtual void joinTraining() {
-        if (!is_training_) return;
-        bool expectedState(false);
-        if (is_joining_.compare_exchange_weak(expectedState, true)) {
-            while (!training_threads_.empty()) {
-                training_threads_.begin()->second.join();
-                training_threads_.erase(training_threads_.begin());
+    void prepareTraining(std::string const& label) {
+        is_training_ = true;
+        background_training_ =
+            (configuration.multithreading == MultithreadingMode::Background);
+        models[label].is_training_ = true;
+        models[label].cancel_training_ = false;
+        models_still_training_++;
+    }
+
+    /**
+     @brief Finishes the training process by joining threads and deleting the
+     models which training failed. If another thread is already joining, waits
+     until the training is finished.
+     */
+    void joinTraining() {
+        bool join(false);
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            if (is_training_ && !is_joining_) {
+                is_joining_ = true;
+                join = true;
+            }
+        }
+        if (join) {
+            finishTraining();
+        } else {
+            while (is_joining_) {
+            }
+        }
+    }
+
+    /**
+     @brief Joins the training threads, deletes the models which training failed,
+     updates the model and notifies the listeners.
+     @warning is_joining_ must have been set by the caller
+     */
+    void finishTraining() {
+        bool threadsJoined(false);
+        while (!threadsJoined) {
+            std::thread training_thread;
+            {
+                std::lock_guard<std::mutex> lock(event_mutex_);
+                if (!training_threads_.empty()) {
+                    training_thread =
+                        std::move(training_threads_.begin()->second);
+                    training_threads_.erase(training_threads_.begin());
+                }
             }
-            bool classesUntrained(true);
-            while (classesUntrained) {
-                classesUntrained = false;
-                for (auto it = this->models.begin(); it != this->models.end();
-                     it++) {
-                    if (it->second.training_status.status ==
-                            TrainingEvent::Status::Cancel ||
-                        it->second.training_status.status ==
-                            TrainingEvent::Status::Error) {
-                        models.erase(it);
-                        classesUntrained = true;
-                        break;
-                    }
+            if (training_thread.joinable())
+                training_thread.join();
+            else
+                threadsJoined = true;
+        }
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            for (auto it = this->models.begin(); it != this->models.end();) {
+                if (it->second.training_status.status ==
+                        TrainingEvent::Status::Cancel ||
+                    it->second.training_status.status ==
+                        TrainingEvent::Status::Error) {
+                    it = models.erase(it);
+                } else {
+                    ++it;
                 }
             }
+            models_still_training_ = 0;
+        }
+        trainingFinished();
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
             is_joining_ = false;
             is_training_ = false;
-            reset();
-            TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
-            training_events.notifyListeners(event);
-        } else {
-            while (is_joining_) {
-            }
+        }
+        TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
+        training_events.notifyListeners(event);
+    }
+
+    /**
+     @brief Updates the model once all classes are trained
+     */
+    virtual void trainingFinished() { resetResults(); }
+
+    /**
+     @brief Resets the classes and the results of the filtering process
+     */
+    virtual void resetResults() {
+        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
+            it->second.reset();
+        }
+    }
+
+    /**
+     @brief Cancels the training and waits for the background thread that joins
+     the training threads. Must be called before the model is destroyed.
+     */
+    void stopTraining() {
+        cancelTraining();
+        while (background_joins_ > 0) {
+            std::this_thread::yield();
         }
     }
 
@@ -519,27 +634,27 @@ class Model : public Writable {
      @brief Monitors the training of each Model of the group.
      */
     void onTrainingEvent(TrainingEvent const& e) {
-        event_mutex_.lock();
+        std::lock_guard<std::mutex> lock(event_mutex_);
         TrainingEvent event(e);
         event.model = this;
         training_events.notifyListeners(event);
         if (e.status != TrainingEvent::Status::Run) {
-            models_still_training_--;
+            if (models_still_training_ > 0) models_still_training_--;
             ((SingleClassModel*)e.model)->is_training_ = false;
-            if (configuration.multithreading ==
-                    MultithreadingMode::Background &&
-                !is_joining_ &&       // avoid to call "joinTraining" if already
-                                      // called by the main thread
-                !cancel_required_ &&  // avoid to call "joinTraining" if cancel
-                                      // required by the main thread
+            if (background_training_ &&
+                !is_joining_ &&       // avoid to call "finishTraining" if
+                                      // already called by another thread
+                !cancel_required_ &&  // avoid to call "finishTraining" if
+                                      // cancel required by another thread
                 models_still_training_ == 0) {
-                is_joining_ = false;
-                std::thread(&Model<SingleClassModel, ModelType>::joinTraining,
-                            this)
-                    .detach();
+                is_joining_ = true;
+                background_joins_++;
+                std::thread([this]() {
+                    finishTraining();
+                    background_joins_--;
+                }).detach();
             }
         }
-        event_mutex_.unlock();
     }
 
     /**
@@ -615,6 +730,16 @@ class Model : public Writable {
      */
     std::atomic<bool> is_joining_;
 
+    /**
+     @brief specifies if the current training runs in background
+     */
+    std::atomic<bool> background_training_;
+
+    /**
+     @brief Number of background threads that are joining the training threads
+     */
+    std::atomic<int> background_joins_;
+
     /**
      @brief Number of models that are still training
      */
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index ceeb82b..dc706a1 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -51,6 +51,8 @@ xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     return *this;
 }
 
+xmm::GMM::~GMM() { stopTraining(); }
+
 void xmm::GMM::updateResults() {
     double maxLogLikelihood = 0.0;
     double normconst_instant(0.0);
@@ -85,7 +87,9 @@ void xmm::GMM::updateResults() {
 
 #pragma mark -
 #pragma mark Performance
-void xmm::GMM::reset() {
+void xmm::GMM::reset() { Model<SingleClassGMM, GMM>::reset(); }
+
+void xmm::GMM::resetResults() {
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/gmm/xmmGmm.hpp b/src/models/gmm/xmmGmm.hpp
index 03d9247..f39baf0 100644
--- a/src/models/gmm/xmmGmm.hpp
+++ b/src/models/gmm/xmmGmm.hpp
@@ -70,6 +70,11 @@ class GMM : public Model<SingleClassGMM, GMM> {
      */
     GMM& operator=(GMM const& src);
 
+    /**
+     @brief Destructor
+     */
+    virtual ~GMM();
+
     /** @name Performance */
     ///@{
 
@@ -152,6 +157,11 @@ class GMM : public Model<SingleClassGMM, GMM> {
      @brief Update the results (Likelihoods)
      */
     virtual void updateResults();
+
+    /**
+     @brief Resets the classes and the results of the filtering process
+     */
+    virtual void resetResults();
 };
 }
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 8dced71..f2522f7 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -76,6 +76,8 @@ xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
     return *this;
 }
 
+xmm::HierarchicalHMM::~HierarchicalHMM() { stopTraining(); }
+
 void xmm::HierarchicalHMM::clear() {
     Model<SingleClassHMM, HMM>::clear();
     prior.clear();
@@ -103,8 +105,8 @@ void xmm::HierarchicalHMM::normalizeTransitions() {
     for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
 }
 
-void xmm::HierarchicalHMM::joinTraining() {
-    Model<SingleClassHMM, HMM>::joinTraining();
+void xmm::HierarchicalHMM::trainingFinished() {
+    Model<SingleClassHMM, HMM>::trainingFinished();
     updateTransitionParameters();
 }
 
@@ -142,7 +144,7 @@ void xmm::HierarchicalHMM::updateExitProbabilities() {
 
 void xmm::HierarchicalHMM::addModelForClass(std::string const &label) {
     Model<SingleClassHMM, HMM>::addModelForClass(label);
-    updateTransitionParameters();
+    if (!is_training_) updateTransitionParameters();
 }
 
 void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
@@ -363,11 +365,13 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
 
 void xmm::HierarchicalHMM::removeClass(std::string const &label) {
     Model<SingleClassHMM, HMM>::removeClass(label);
-    updateTransitionParameters();
+    if (!is_training_) updateTransitionParameters();
 }
 
-void xmm::HierarchicalHMM::reset() {
-    Model<SingleClassHMM, HMM>::reset();
+void xmm::HierarchicalHMM::reset() { Model<SingleClassHMM, HMM>::reset(); }
+
+void xmm::HierarchicalHMM::resetResults() {
+    Model<SingleClassHMM, HMM>::resetResults();
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 849850b..8f81dc4 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -75,6 +75,11 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     HierarchicalHMM& operator=(HierarchicalHMM const& src);
 
+    /**
+     @brief Destructor
+     */
+    virtual ~HierarchicalHMM();
+
     /** @name Class Manipulation */
     ///@{
 
@@ -213,11 +218,15 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
-     @details: updates transition parameters after joining
+     @brief Updates the model once all classes are trained
+     @details updates the transition parameters
+     */
+    virtual void trainingFinished();
+
+    /**
+     @brief Resets the classes and the results of the filtering process
      */
-    virtual void joinTraining();
+    virtual void resetResults();
 
     /**
      @brief update high-level parameters when a new primitive is learned
-- 
2.43.0


From a74894a2e2551128ae133c5986689e174c4394f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 61/82] fix: training waits for the threads of the classes it
 cancels

---
 src/core/model/xmmModel.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index b8a7bbb..ff00628 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -62,6 +62,7 @@ class Model : public Writable {
           is_joining_(false),
           background_training_(false),
           background_joins_(0),
+          class_joins_(0),
           models_still_training_(0) {
         shared_parameters->bimodal.set(bimodal);
         if (shared_parameters->bimodal.get()) {
@@ -87,6 +88,7 @@ class Model : public Writable {
           is_joining_(false),
           background_training_(false),
           background_joins_(0),
+          class_joins_(0),
           models_still_training_(0) {
         if (src.is_training_)
             throw std::runtime_error(
@@ -112,6 +114,7 @@ class Model : public Writable {
           is_joining_(false),
           background_training_(false),
           background_joins_(0),
+          class_joins_(0),
           models_still_training_(0) {
         shared_parameters->fromJson(root["shared_parameters"]);
         configuration.fromJson(root["configuration"]);
@@ -415,10 +418,12 @@ class Model : public Writable {
             if (it != training_threads_.end()) {
                 training_thread = std::move(it->second);
                 training_threads_.erase(it);
+                class_joins_++;
             }
         }
         if (training_thread.joinable()) {
             training_thread.join();
+            class_joins_--;
         } else {
             bool classIsTraining(true);
             while (classIsTraining) {
@@ -581,6 +586,10 @@ class Model : public Writable {
             else
                 threadsJoined = true;
         }
+        // threads of cancelled classes are joined in "cancelTraining"
+        while (class_joins_ > 0) {
+            std::this_thread::yield();
+        }
         {
             std::lock_guard<std::mutex> lock(event_mutex_);
             for (auto it = this->models.begin(); it != this->models.end();) {
@@ -740,6 +749,11 @@ class Model : public Writable {
      */
     std::atomic<int> background_joins_;
 
+    /**
+     @brief Number of cancelled classes whose thread is being joined
+     */
+    std::atomic<int> class_joins_;
+
     /**
      @brief Number of models that are still training
      */
-- 
2.43.0


From 4a7d6985237c2c5e162d5a3f7c23e9c7d6b722e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 62/82] fix: the model is not training once a cancelled
 training was joined

---
 src/core/model/xmmModel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index ff00628..1377631 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -607,8 +607,8 @@ class Model : public Writable {
         trainingFinished();
         {
             std::lock_guard<std::mutex> lock(event_mutex_);
-            is_joining_ = false;
             is_training_ = false;
+            is_joining_ = false;
         }
         TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
         training_events.notifyListeners(event);
-- 
2.43.0


From c88c815ba972dc370e4fc7ca1ee8a2894a92b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 63/82] fix: reading a vector attribute of free size by index

---
 src/core/common/xmmAttribute.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index 6dce847..2598503 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -361,7 +361,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     T at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
@@ -548,7 +548,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     std::string at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
-- 
2.43.0


From 56a9434246a391e52e2fbe7dd542211ea364b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:12 +0000
Subject: [PATCH 64/82] fix: the input dimension of shared parameters stays
 below their dimension

---
 src/core/model/xmmModelSharedParameters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 80ec859..becdd91 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -157,6 +157,8 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         }
     } else if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
         column_names.resize(dimension.get());
     }
     attr_pointer->changed = false;
-- 
2.43.0


From 346ec07317f6355debc7486102483d7635e14893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 65/82] fix: exit points of classes that are not trained are
 out of bounds

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 0bd0582..f826f12 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1425,7 +1425,7 @@ void xmm::SingleClassHMM::addExitPoint(int stateIndex, float proba) {
     if (!is_hierarchical_)
         throw std::runtime_error(
             "Model is Not hierarchical: method cannot be used");
-    if (stateIndex >= parameters.states.get())
+    if (stateIndex < 0 || stateIndex >= exit_probabilities_.size())
         throw std::out_of_range("State index out of bounds");
     exit_probabilities_[stateIndex] = proba;
 }
-- 
2.43.0


From 461a4f53fa1a3f418ece6a155f8b27639a9a376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 66/82] fix: shared parameters can become bimodal again

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index becdd91..7788c7c 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -146,7 +146,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         if (bimodal.get()) {
             dimension.setLimitMin(2);
             if (dimension.get() < 2) dimension.set(2);
-            dimension_input.setLimitMin(1);
+            dimension_input.setLimits(1, dimension.get() - 1);
             if (dimension_input.get() < 1) dimension_input.set(1);
         } else {
             dimension.setLimitMin(1);
-- 
2.43.0


From 8c17b1e5f00973a65050efdf432b136eaa34b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 67/82] fix: removing a class by the training set's own label

---
 src/core/trainingset/xmmTrainingSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 3a2fc42..44af81d 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -278,11 +278,13 @@ void xmm::TrainingSet::removePhrase(int phraseIndex) {
 }
 
 void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
+    // the label can be one of the set's own, which disappears with its phrases
+    std::string const removed_label(label);
     bool contLoop(true);
     while (contLoop) {
         contLoop = false;
         for (auto &phrase : phrases_) {
-            if (phrase.second->label.get() == label) {
+            if (phrase.second->label.get() == removed_label) {
                 removePhrase(phrase.first);
                 contLoop = true;
                 break;
-- 
2.43.0


From d85dc1f96f1ae108507ad870e03494fd4ad4af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 68/82] fix: JSON training sets reject phrases of other
 dimensions

---
 src/core/trainingset/xmmTrainingSet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 44af81d..2116669 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -97,8 +97,14 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     // Get Phrases
     phrases_.clear();
     for (auto p : root["phrases"]) {
+        std::shared_ptr<xmm::Phrase> phrase = std::make_shared<Phrase>(p);
+        if (phrase->bimodal() != bimodal_ ||
+            phrase->dimension.get() != dimension.get() ||
+            phrase->dimension_input.get() != dimension_input.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "phrases");
         phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
-            p["index"].asInt(), std::make_shared<Phrase>(p)));
+            p["index"].asInt(), phrase));
         phrases_[p["index"].asInt()]->events.addListener(
             this, &xmm::TrainingSet::onPhraseEvent);
     }
-- 
2.43.0


From df8c66a1935eede6440d4374ffffe00d808b2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 69/82] fix: GMM classes reject JSON components of other
 dimensions

---
 src/models/gmm/xmmGmmSingleClass.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 2590c9b..52af653 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -63,7 +63,19 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
 
     int c(0);
     for (auto p : root["components"]) {
-        components[c++].fromJson(p);
+        components[c].fromJson(p);
+        if (p.get("bimodal", false).asBool() !=
+                shared_parameters->bimodal.get() ||
+            components[c].dimension.get() !=
+                shared_parameters->dimension.get() ||
+            (shared_parameters->bimodal.get() &&
+             components[c].dimension_input.get() !=
+                 shared_parameters->dimension_input.get()) ||
+            components[c].covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "components");
+        c++;
     }
 
     updateInverseCovariances();
-- 
2.43.0


From 27453cabbf1563eb8e3df89615b2c6f839c98961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 70/82] fix: negative sizes in JSON parameters are refused

---
 src/core/model/xmmModelSharedParameters.cpp | 10 +++++-----
 src/models/gmm/xmmGmmParameters.cpp         |  2 +-
 src/models/hmm/xmmHmmParameters.cpp         |  4 ++--
 src/models/kmeans/xmmKMeansParameters.cpp   |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 7788c7c..d8de8e5 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -87,16 +87,16 @@ xmm::SharedParameters::SharedParameters(SharedParameters const& src)
 xmm::SharedParameters::SharedParameters(Json::Value const& root)
     : SharedParameters() {
     bimodal.set(root.get("bimodal", false).asBool());
-    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asInt());
+    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asUInt());
     dimension_input.set(
-        root.get("dimension_input", bimodal.get() ? 1 : 0).asInt());
+        root.get("dimension_input", bimodal.get() ? 1 : 0).asUInt());
     em_algorithm_min_iterations.set(
-        root.get("em_algorithm_min_iterations", 10).asInt());
+        root.get("em_algorithm_min_iterations", 10).asUInt());
     em_algorithm_max_iterations.set(
-        root.get("em_algorithm_max_iterations", 0).asInt());
+        root.get("em_algorithm_max_iterations", 0).asUInt());
     em_algorithm_percent_chg.set(
         root.get("em_algorithm_percent_chg", 0.01).asDouble());
-    likelihood_window.set(root.get("likelihood_window", 1).asInt());
+    likelihood_window.set(root.get("likelihood_window", 1).asUInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
         tmpColNames[i] = root["column_names"].get(i, "").asString();
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index adf4c97..c9ebae7 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -79,7 +79,7 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
     covariance_mode.onAttributeChange(
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
-    gaussians.set(root["gaussians"].asInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index cbc058e..9f5fa96 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -90,8 +90,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(ClassParameters<HMM> const& src)
 
 xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    states.set(root["states"].asInt());
-    gaussians.set(root["gaussians"].asInt());
+    states.set(root["states"].asUInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/kmeans/xmmKMeansParameters.cpp b/src/models/kmeans/xmmKMeansParameters.cpp
index 9620d03..9abadd6 100644
--- a/src/models/kmeans/xmmKMeansParameters.cpp
+++ b/src/models/kmeans/xmmKMeansParameters.cpp
@@ -61,8 +61,8 @@ xmm::ClassParameters<xmm::KMeans>::ClassParameters(
 
 xmm::ClassParameters<xmm::KMeans>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    clusters.set(root["clusters"].asInt());
-    max_iterations.set(root["max_iterations"].asInt());
+    clusters.set(root["clusters"].asUInt());
+    max_iterations.set(root["max_iterations"].asUInt());
     relative_distance_threshold.set(
         root["relative_distance_threshold"].asFloat());
 }
-- 
2.43.0


From 98ba835b1600c9b0eb270404eda5368a0de5acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 71/82] fix: the input dimension of unimodal data stays zero

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/core/trainingset/xmmPhrase.cpp          | 2 +-
 src/core/trainingset/xmmTrainingSet.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index d8de8e5..4b5bc59 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -156,7 +156,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal.get()) dimension_input.setLimitMax(dimension.get() - 1);
         if (dimension_input.get() >= dimension.get())
             dimension_input.set(dimension.get() - 1, true);
         column_names.resize(dimension.get());
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index bce35b3..7026d78 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -599,7 +599,7 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         column_names.resize(dimension.get());
     }
     if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_) dimension_input.setLimitMax(dimension.get() - 1);
         if (bimodal_ && dimension_input.get() >= dimension.get())
             dimension_input.set(dimension.get() - 1, true);
     }
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 2116669..76f48c9 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -164,7 +164,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
             it->second.dimension.set(dimension.get());
 
         column_names.resize(dimension.get());
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_) dimension_input.setLimitMax(dimension.get() - 1);
         if (bimodal_ && dimension_input.get() >= dimension.get())
             dimension_input.set(dimension.get() - 1, true);
     }
-- 
2.43.0


From 4c1b577895251d4def86e0b908b3178bf8c55f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 72/82] fix: HMM classes reject JSON states with another
 covariance mode

---
 src/models/hmm/xmmHmmSingleClass.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index f826f12..a8a494b 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -87,7 +87,12 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
 
     int s(0);
     for (auto p : root["states"]) {
-        states[s++].fromJson(p);
+        states[s].fromJson(p);
+        if (states[s].parameters.covariance_mode.get() !=
+            parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "states");
+        s++;
     }
 }
 
-- 
2.43.0


From c3a3d40d5818b649d862c098d0ed8646fd74bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 73/82] fix: the smallest integer is read without overflow

---
 dependencies/jsoncpp/src/json_reader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index 0453574..a393ddd 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -1552,7 +1552,7 @@ bool OurReader::decodeNumber(Token& token, Value& decoded) {
     ++current;
   // TODO: Help the compiler do the div and mod at compile time or get rid of them.
   Value::LargestUInt maxIntegerValue =
-      isNegative ? Value::LargestUInt(-Value::minLargestInt)
+      isNegative ? Value::LargestUInt(Value::maxLargestInt) + 1
                  : Value::maxLargestUInt;
   Value::LargestUInt threshold = maxIntegerValue / 10;
   Value::LargestUInt value = 0;
@@ -1573,7 +1573,9 @@ bool OurReader::decodeNumber(Token& token, Value& decoded) {
     }
     value = value * 10 + digit;
   }
-  if (isNegative)
+  if (isNegative && value == maxIntegerValue)
+    decoded = Value::minLargestInt;
+  else if (isNegative)
     decoded = -Value::LargestInt(value);
   else if (value <= Value::LargestUInt(Value::maxInt))
     decoded = Value::LargestInt(value);
-- 
2.43.0


From 4c9b133cee929596a0ead76262a1e150f12f90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 74/82] fix: the JSON readers do not read past the end of the
 text

---
 dependencies/jsoncpp/src/json_reader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index a393ddd..939e7d0 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -400,7 +400,7 @@ Reader::addComment(Location begin, Location end, CommentPlacement placement) {
 bool Reader::readCStyleComment() {
   while (current_ != end_) {
     Char c = getNextChar();
-    if (c == '*' && *current_ == '/')
+    if (c == '*' && current_ != end_ && *current_ == '/')
       break;
   }
   return getNextChar() == '/';
@@ -517,7 +517,7 @@ bool Reader::readArray(Token& tokenStart) {
   currentValue().swapPayload(init);
   currentValue().setOffsetStart(tokenStart.start_ - begin_);
   skipSpaces();
-  if (*current_ == ']') // empty array
+  if (current_ != end_ && *current_ == ']') // empty array
   {
     Token endArray;
     readToken(endArray);
@@ -792,7 +792,7 @@ void Reader::getLocationLineAndColumn(Location location,
   while (current < location && current != end_) {
     Char c = *current++;
     if (c == '\r') {
-      if (*current == '\n')
+      if (current != end_ && *current == '\n')
         ++current;
       lastLineStart = current;
       ++line;
@@ -1359,7 +1359,7 @@ OurReader::addComment(Location begin, Location end, CommentPlacement placement)
 bool OurReader::readCStyleComment() {
   while (current_ != end_) {
     Char c = getNextChar();
-    if (c == '*' && *current_ == '/')
+    if (c == '*' && current_ != end_ && *current_ == '/')
       break;
   }
   return getNextChar() == '/';
@@ -1499,7 +1499,7 @@ bool OurReader::readArray(Token& tokenStart) {
   currentValue().swapPayload(init);
   currentValue().setOffsetStart(tokenStart.start_ - begin_);
   skipSpaces();
-  if (*current_ == ']') // empty array
+  if (current_ != end_ && *current_ == ']') // empty array
   {
     Token endArray;
     readToken(endArray);
@@ -1798,7 +1798,7 @@ void OurReader::getLocationLineAndColumn(Location location,
   while (current < location && current != end_) {
     Char c = *current++;
     if (c == '\r') {
-      if (*current == '\n')
+      if (current != end_ && *current == '\n')
         ++current;
       lastLineStart = current;
       ++line;
-- 
2.43.0


From 4ad126942196e08110de9835975b32855590f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 75/82] fix: read streams to their end, whatever bytes they
 hold

---
 dependencies/jsoncpp/src/json_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index 939e7d0..ac0e7a7 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -14,6 +14,7 @@
 #include <cassert>
 #include <cstring>
 #include <istream>
+#include <iterator>
 #include <sstream>
 #include <memory>
 #include <set>
@@ -108,10 +109,9 @@ bool Reader::parse(std::istream& sin, Value& root, bool collectComments) {
   // Those would allow streamed input from a file, if parse() were a
   // template function.
 
-  // Since std::string is reference-counted, this at least does not
-  // create an extra copy.
-  std::string doc;
-  std::getline(sin, doc, (char)EOF);
+  // the whole stream: any byte, (char)EOF included, can be part of a string
+  std::string doc((std::istreambuf_iterator<char>(sin)),
+                  std::istreambuf_iterator<char>());
   return parse(doc, root, collectComments);
 }
 
-- 
2.43.0


From 39ce70933a1fe4d85cb752f51b5c36574f0b1fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 76/82] fix: report a file that cannot be written

---
 src/core/common/xmmJson.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index d43ba09..79fcdc4 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -83,6 +83,7 @@ class Writable {
         outStream.open(fileName);
         outStream << this->toJson();
         outStream.close();
+        if (!outStream) throw std::runtime_error("Cannot Write Json File");
     }
 
     /**
-- 
2.43.0


From 0dbf2bc8ddbde8f504bf1f1b64ebae104f3cedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 77/82] fix: let readers work in several threads at once

---
 dependencies/jsoncpp/src/json_reader.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index ac0e7a7..35dd3a8 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -44,7 +44,6 @@
 #endif
 
 static int const stackLimit_g = 1000;
-static int       stackDepth_g = 0;  // see readValue()
 
 namespace Json {
 
@@ -135,7 +134,6 @@ bool Reader::parse(const char* beginDoc,
     nodes_.pop();
   nodes_.push(&root);
 
-  stackDepth_g = 0;  // Yes, this is bad coding, but options are limited.
   bool successful = readValue();
   Token token;
   skipCommentTokens(token);
@@ -158,12 +156,10 @@ bool Reader::parse(const char* beginDoc,
 }
 
 bool Reader::readValue() {
-  // This is a non-reentrant way to support a stackLimit. Terrible!
-  // But this deprecated class has a security problem: Bad input can
+  // This deprecated class has a security problem: Bad input can
   // cause a seg-fault. This seems like a fair, binary-compatible way
-  // to prevent the problem.
-  if (stackDepth_g >= stackLimit_g) throwRuntimeError("Exceeded stackLimit in readValue().");
-  ++stackDepth_g;
+  // to prevent the problem: nodes_ holds the root and one node per level.
+  if (nodes_.size() > static_cast<size_t>(stackLimit_g)) throwRuntimeError("Exceeded stackLimit in readValue().");
 
   Token token;
   skipCommentTokens(token);
@@ -237,7 +233,6 @@ bool Reader::readValue() {
     lastValue_ = &currentValue();
   }
 
-  --stackDepth_g;
   return successful;
 }
 
-- 
2.43.0


From afc9d4bf28ac42f40482a6ce9c87abc976221ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 78/82] fix: let states exit with a probability of one

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f2522f7..2838ca6 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -33,6 +33,14 @@
 #include "xmmHierarchicalHmm.hpp"
 #include <algorithm>
 
+namespace {
+// probability not to exit from a state, by which its transitions are divided.
+// The states that always exit (exit probability of 1) keep nothing to divide.
+double stayProbability(float exit_probability) {
+    return (exit_probability < 1.f) ? 1 - exit_probability : 1.;
+}
+}
+
 xmm::HierarchicalHMM::HierarchicalHMM(bool bimodal)
     : Model<SingleClassHMM, HMM>(bimodal), forward_initialized_(false) {}
 
@@ -240,7 +248,8 @@ void xmm::HierarchicalHMM::forward_update(
             for (int k = 0; k < N; ++k) {
                 for (unsigned int j = 0; j < N; ++j) {
                     front[k] += dstModel.second.transition[j * N + k] /
-                                (1 - dstModel.second.exit_probabilities_[j]) *
+                                stayProbability(
+                                    dstModel.second.exit_probabilities_[j]) *
                                 dstModel.second.alpha_h[0][j];
                 }
 
@@ -270,10 +279,12 @@ void xmm::HierarchicalHMM::forward_update(
             // k>0: rest of the primitive
             for (int k = 1; k < N; ++k) {
                 front[k] += dstModel.second.transition[k * 2] /
-                            (1 - dstModel.second.exit_probabilities_[k]) *
+                            stayProbability(
+                                dstModel.second.exit_probabilities_[k]) *
                             dstModel.second.alpha_h[0][k];
                 front[k] += dstModel.second.transition[(k - 1) * 2 + 1] /
-                            (1 - dstModel.second.exit_probabilities_[k - 1]) *
+                            stayProbability(
+                                dstModel.second.exit_probabilities_[k - 1]) *
                             dstModel.second.alpha_h[0][k - 1];
             }
 
-- 
2.43.0


From 62b4d0088e786624ea62606203df1be96a28510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 79/82] fix: give flat ellipses a height of zero

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index bbdcd3c..170c1ff 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -551,7 +551,8 @@ xmm::Ellipse xmm::GaussianDistribution::toEllipse(unsigned int dimension1,
     double discriminant =
         sqrt((a - c) * (a - c) + 4 * b * b);
     double eigenVal1 = 0.5 * (trace + discriminant);
-    double eigenVal2 = 0.5 * (trace - discriminant);
+    // flat ellipses can get a slightly negative value by rounding
+    double eigenVal2 = std::max(0.5 * (trace - discriminant), 0.);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
     if (b == 0.0) {
@@ -717,7 +718,8 @@ xmm::Ellipse xmm::covariance2ellipse(double c_xx, double c_xy, double c_yy) {
     double discriminant =
         sqrt((c_xx - c_yy) * (c_xx - c_yy) + 4 * c_xy * c_xy);
     double eigenVal1 = 0.5 * (trace + discriminant);
-    double eigenVal2 = 0.5 * (trace - discriminant);
+    // flat ellipses can get a slightly negative value by rounding
+    double eigenVal2 = std::max(0.5 * (trace - discriminant), 0.);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
     if (c_xy == 0.0) {
-- 
2.43.0


From 69a1eec3d4e6b51d8726d5da8d516c090ab8210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 80/82] fix: free the intermediate matrices when a
 pseudo-inverse fails

---
 src/core/common/xmmMatrix.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 400fb43..56e312c 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -36,6 +36,7 @@
 #include <cmath>
 #include <exception>
 #include <iostream>
+#include <memory>
 #include <stdexcept>
 #include <vector>
 
@@ -271,21 +272,17 @@ class Matrix {
             }
         }
 
-        Matrix<T> *transp, *prod, *dst;
-        transp = this->transpose();
+        std::unique_ptr<Matrix<T>> transp(this->transpose()), prod, dst;
         if (nrows >= ncols) {
-            prod = transp->product(this);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = dst->product(transp);
+            prod.reset(transp->product(this));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = dst->product(transp.get());
         } else {
-            prod = this->product(transp);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = transp->product(dst);
+            prod.reset(this->product(transp.get()));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = transp->product(dst.get());
         }
         *det = 0;
-        delete transp;
-        delete prod;
-        delete dst;
         return inverse;
     }
 
-- 
2.43.0


From 57db378f39b585cacbe2677f86b7fc1b83e660b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 81/82] fix: free the data of a phrase when its JSON
 description is refused

---
 src/core/trainingset/xmmPhrase.cpp | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 7026d78..8c88d0e 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -106,22 +106,10 @@ xmm::Phrase::Phrase(Phrase const& src)
 }
 
 xmm::Phrase::Phrase(Json::Value const& root)
-    : own_memory_(true),
-      bimodal_(false),
-      empty_(true),
-      length_(0),
-      input_length_(0),
-      output_length_(0),
-      max_length_(0) {
-    if (!own_memory_)
-        throw std::runtime_error("Cannot read Phrase with Shared memory");
-
-    dimension.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-    dimension_input.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-    label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-
-    bimodal_ = root.get("bimodal", false).asBool();
-    dimension.setLimitMin((bimodal_) ? 2 : 1);
+    // once the phrase is constructed by the delegate, what follows can throw
+    : Phrase(MemoryMode::OwnMemory, root.get("bimodal", false).asBool()
+                                        ? Multimodality::Bimodal
+                                        : Multimodality::Unimodal) {
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt(), true);
     if (bimodal_) {
         dimension_input.setLimits(1, dimension.get() - 1);
@@ -129,9 +117,6 @@ xmm::Phrase::Phrase(Json::Value const& root)
         dimension_input.setLimits(0, 0);
     }
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt(), true);
-    data_ = new float*[bimodal_ ? 2 : 1];
-    data_[0] = NULL;
-    if (bimodal_) data_[1] = NULL;
 
     if (root["column_names"].size() > dimension.get())
         throw JsonException(JsonException::JsonErrorType::JsonValueError,
-- 
2.43.0


From 115a827fb94baa9d65300da0c2e1a150a73544b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 82/82] fix: regression of classes whose probability nearly
 underflows

---
 src/models/hmm/xmmHmmSingleClass.cpp | 55 ++++++++--------------------
 1 file changed, 16 insertions(+), 39 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index a8a494b..4b9fb42 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1290,47 +1290,24 @@ void xmm::SingleClassHMM::regression(
         states[i].likelihood(observation_input);
         states[i].regression(observation_input);
         tmp_predicted_output = states[i].results.output_values;
+        // the probability of a class in a hierarchical model can be so small that
+        // its square underflows
+        double weight =
+            (is_hierarchical_ ? (alpha_h[0][i] + alpha_h[1][i]) : alpha[i]) /
+            normalization_constant;
         for (unsigned int d = 0; d < dimension_output; ++d) {
-            if (is_hierarchical_) {
-                results.output_values[d] += (alpha_h[0][i] + alpha_h[1][i]) *
-                                            tmp_predicted_output[d] /
-                                            normalization_constant;
-                if (parameters.covariance_mode.get() ==
-                    GaussianDistribution::CovarianceMode::Full) {
-                    for (int d2 = 0; d2 < dimension_output; ++d2)
-                        results.output_covariance[d * dimension_output + d2] +=
-                            (alpha_h[0][i] + alpha_h[1][i]) *
-                            (alpha_h[0][i] + alpha_h[1][i]) *
-                            states[i]
-                                .results
-                                .output_covariance[d * dimension_output + d2] /
-                            (normalization_constant * normalization_constant);
-                } else {
-                    results.output_covariance[d] +=
-                        (alpha_h[0][i] + alpha_h[1][i]) *
-                        (alpha_h[0][i] + alpha_h[1][i]) *
-                        states[i].results.output_covariance[d] /
-                        (normalization_constant * normalization_constant);
-                }
+            results.output_values[d] += weight * tmp_predicted_output[d];
+            if (parameters.covariance_mode.get() ==
+                GaussianDistribution::CovarianceMode::Full) {
+                for (int d2 = 0; d2 < dimension_output; ++d2)
+                    results.output_covariance[d * dimension_output + d2] +=
+                        weight * weight *
+                        states[i]
+                            .results
+                            .output_covariance[d * dimension_output + d2];
             } else {
-                results.output_values[d] +=
-                    alpha[i] * tmp_predicted_output[d] / normalization_constant;
-                if (parameters.covariance_mode.get() ==
-                    GaussianDistribution::CovarianceMode::Full) {
-                    for (int d2 = 0; d2 < dimension_output; ++d2)
-                        results.output_covariance[d * dimension_output + d2] +=
-                            alpha[i] * alpha[i] *
-                            states[i]
-                                .results
-                                .output_covariance[d * dimension_output + d2] /
-                            (normalization_constant * normalization_constant);
-
-                } else {
-                    results.output_covariance[d] +=
-                        alpha[i] * alpha[i] *
-                        states[i].results.output_covariance[d] /
-                        (normalization_constant * normalization_constant);
-                }
+                results.output_covariance[d] +=
+                    weight * weight * states[i].results.output_covariance[d];
             }
         }
     }
-- 
2.43.0

