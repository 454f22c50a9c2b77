From 4c8476a4d7cc120f618b4c23838b880c8a43f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 01/41] fix: Vector copy no longer destroys elements that were
 never constructed

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From 87f11607cdd1b0747221324ffc4bb43a907d287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 02/41] fix: Vector push_back/resize accept a reference to one
 of their own elements

---
 core/ds/array/Vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..3d2d322 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,12 +96,16 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            // element may live in the storage which resize will release
+            const ValueType obj(element);
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            dstruct::construct(mC_d + mSize_d, obj);
+        } else {
+            dstruct::construct(mC_d + mSize_d, element);
         }
-        dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
     }
 
@@ -190,6 +194,11 @@ public:
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
 
+        // set (before release: element may live in the old storage)
+        for (int i = mSize_d; i < n; i++) {
+            dstruct::construct(mC_d + i, element);
+        }
+
         // release
         if (oldC) {
             for (int i = 0; i < mSize_d; i++) {
@@ -200,11 +209,6 @@ public:
             Vector::Alloc_::deallocate(oldC, mCapacity_d);
         }
 
-        // set
-        for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
-        }
-
         mCapacity_d = mSize_d = n;
     }
 
-- 
2.43.0


From d36334edd1171eb0a757b04e66b410e89726bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 03/41] fix: Vector operator[] also checks the lower bound of a
 negative index

---
 core/ds/array/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 3d2d322..beb9aad 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -85,7 +85,7 @@ public: // Access
     ConstReferenceType operator[](int index) const {
         if (index < 0)
             index = mSize_d + index;
-        DSTRUCT_ASSERT(index < static_cast<int>(mSize_d));
+        DSTRUCT_ASSERT(0 <= index && index < static_cast<int>(mSize_d));
         return mC_d[index];
     }
 
@@ -125,7 +125,7 @@ public: // Modifiers
     ReferenceType operator[](int index) {
         if (index < 0)
             index = mSize_d + index;
-        DSTRUCT_ASSERT(index < static_cast<int>(mSize_d));
+        DSTRUCT_ASSERT(0 <= index && index < static_cast<int>(mSize_d));
         return mC_d[index];
     }
 
-- 
2.43.0


From bbbaaf830930e4e195964e976ceb37a1472e81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 04/41] fix: BasicString built from an empty C string does not
 read past its terminator

---
 core/ds/string/BasicString.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..4bd5a54 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,11 +38,9 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
-        mCharList_d[-1] = *str;
-        while (*(++str) != '\0') {
-            mCharList_d.push_back(*str);
+        for ( ; *str != '\0'; str++) {
+            push_back(*str);
         }
-        mCharList_d.push_back('\0');
     }
 
     ~BasicString() = default;
-- 
2.43.0


From a283d06a1a37ffb9bcb2e6a00176fae748acbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 05/41] fix: a moved-from BasicString is an empty string

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 4bd5a54..e7d3805 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear(); // a moved-from string is an empty string
         return *this;
     }
 
-- 
2.43.0


From 649b2fbe0383d8ec9ce12f6c87699237e180610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 06/41] fix: BasicString can be appended to itself

---
 core/ds/string/BasicString.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index e7d3805..4e73f12 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -118,9 +118,9 @@ public:
     BasicString & operator+=(const BasicString &str) {
         if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
             mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
-        mCharList_d[-1] = str[0];
-        for (int i = 1; i < str.mCharList_d.size(); i++) {
-            mCharList_d.push_back(str.mCharList_d[i]);
+        const int n = str.size(); // str may be *this
+        for (int i = 0; i < n; i++) {
+            push_back(str[i]);
         }
         return *this;
     }
-- 
2.43.0


From a688785c8909558ba5755a1ae822176f9788039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 07/41] fix: moving an empty linked list leaves both lists
 usable

---
 core/ds/linked-list/LinkedList.hpp       | 1 +
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ds/linked-list/LinkedList.hpp b/core/ds/linked-list/LinkedList.hpp
index 6bff19b..8639578 100644
--- a/core/ds/linked-list/LinkedList.hpp
+++ b/core/ds/linked-list/LinkedList.hpp
@@ -47,6 +47,7 @@ public: // big five
         // 1._clear
         _clear();
         // 2.only move data
+        if (ds.mSize_d == 0) return *this; // both are empty, don't link to ds's headNode
         LinkedList_::mHeadNode_d = ds.mHeadNode_d;
         LinkedList_::mSize_d = ds.mSize_d;
         // 3.spec move impl in subclass
diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..232c186 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -88,7 +88,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d ? ds.mTailNodePtr_d : &mHeadNode_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From 2164a017e57cd28e4d05a39a5c58ec3b4c9d87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 08/41] fix: SinglyLinkedList push/pop keep the tail pointer up
 to date

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 232c186..9280100 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -116,12 +116,20 @@ public:
         mTailNodePtr_d = nPtr;
     }
 
+    void push(const T &obj) {
+        push_front(obj);
+    }
+
     void push_front(const T &obj) {
         List_::push_front(obj);
         if (mSize_d == 1)
             mTailNodePtr_d = Node_::to_node(mHeadNode_d.link.next);
     }
 
+    void pop() {
+        pop_front();
+    }
+
     void pop_front() {
         List_::pop_front();
         if (mSize_d == 0)
-- 
2.43.0


From f1f7ee596877aaf20093cc8ce2c9c5a137636574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 09/41] fix: SinglyLinkedList copy takes every element and
 keeps its own tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 9280100..ac3276c 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -77,10 +77,9 @@ public: // big five
                 push_back(nodePtr->data);
                 linkPtr = nextLinkPtr;
                 nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
+                nodePtr = Node_::to_node(linkPtr);
             }
             push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
         }
         return *this;
     }
-- 
2.43.0


From 113c135648f76940702dbee8d9402bc9a65bd076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 10/41] fix: DoubleEndedQueue compiles with, and only uses, its
 own allocator

---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..8457ef5 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -75,7 +75,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -157,12 +157,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From 0548b23ed37cc11280b03c8712aa6878a17e57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 11/41] fix: DoubleEndedQueue iterators are valid when unused,
 cleared or moved

---
 core/ds/queue/DoubleEndedQueue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 8457ef5..2a1827c 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,9 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d { nullptr }, mArrMapTablePtr_d { nullptr } {
+        _sync();
+    }
 
 public:
     DoubleEndedQueueIterator_(
@@ -193,9 +195,12 @@ public:
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
 
+        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
+
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
         ds.mArrMapTable_d.clear();
+        ds.mBegin_d = ds.mEnd_d = decltype(mBegin_d)();
 
         return *this;
     }
@@ -323,7 +328,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = decltype(mBegin_d)();
         }
     }
 
-- 
2.43.0


From 37d785aa5939078db3b5bea1990f15c537d91ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 12/41] fix: DoubleEndedQueue does not construct elements it
 never destroys

---
 core/ds/queue/DoubleEndedQueue.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 2a1827c..242247f 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -342,8 +342,8 @@ protected:
         mArrMapTable_d.resize(MIN_MAP_TABLE_SIZE, nullptr);
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
-            mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
+            mArrMapTable_d[i] = AllocArray_::allocate(); // only memory, elements are constructed by push
+            DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr);
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -381,7 +381,7 @@ protected:
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
                 mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
+                DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr);
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From 253e0a9c5879fb8d81d5367207ff2709abebdbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 13/41] fix: DoubleEndedQueue iterators of different arrays
 never compare equal

---
 core/ds/queue/DoubleEndedQueue.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 242247f..c53b469 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -89,6 +89,13 @@ public:
             _sync();
     }
 
+public: // base op
+    // Note: end of an array may have the same address as begin of another one
+    bool operator!=(const Self &it) const { return !(*this == it); }
+    bool operator==(const Self &it) const {
+        return Self::mPointer_d == it.mPointer_d && mCurrMapIndex_d == it.mCurrMapIndex_d;
+    }
+
 public: // ForwardIterator
     Self& operator++() {
         static int cnt = 1;
-- 
2.43.0


From a2cbd45e37f8132209fdbe37e01a0ac635baca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 14/41] fix: DoubleEndedQueue gives memory back, a bounded
 queue no longer grows forever

---
 core/ds/queue/DoubleEndedQueue.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index c53b469..c5e86af 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -373,11 +373,9 @@ protected:
         size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;
         size_t newArrEndIndex = newArrStartIndex + arrNum;
 
-        // request: n / ARR_SIZE <= ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
+        // request: used arrays and a free array on both sides fit in the new map table
         // n = y * oldCapacity  
-        if (!isExtend && newMapTableSize >= arrNum) {
-            // when arrNum = ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-            // exist newMapTableSize < arrNum
+        if (!isExtend && (newArrStartIndex == 0 || newArrEndIndex + 1 >= newMapTableSize)) {
             return;
         }
 
-- 
2.43.0


From ad26a31ece37e0140716002230fa8921b6cbda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 15/41] fix: Heap self move assignment keeps the elements

---
 core/ds/Heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index d2b98f1..f369db5 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -50,6 +50,7 @@ public:
 
     Heap(Heap &&hep) { *this = dstruct::move(hep); }
     Heap & operator=(Heap &&hep) {
+        if (this == &hep) return *this;
         this->mCmp_d = hep.mCmp_d;
         this->mHeap_d = dstruct::move(hep.mHeap_d);
         hep.mHeap_d.resize(1, this->mHeap_d[0]);
-- 
2.43.0


From 0018bbdbc52baf33eef79b7aa32ce0dbdf92af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 16/41] fix: XValueStack keeps its extreme value when equal
 values are pushed

---
 core/ds/stack/XValueStack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..325a9e5 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -51,7 +51,7 @@ public:
     T getXValue() const { return mXValue_d; }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
+        if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) { // pop compares by value, so save for equal value too
             mStack_d.push(mXValue_d); // save XValue
             mXValue_d = val;
         }
-- 
2.43.0


From f640439ca0daebb4b8df042032513419cc8abcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 17/41] fix: XValueStack iteration yields only the pushed
 values

---
 core/ds/stack/XValueStack.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 325a9e5..76582fe 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -31,6 +31,7 @@ public:
         this->mXValue_d = ds.mXValue_d;
         this->mCmp_d = ds.mCmp_d;
         this->mStack_d = ds.mStack_d;
+        this->mXStack_d = ds.mXStack_d;
         return *this;
     }
 
@@ -38,6 +39,7 @@ public:
         mXValue_d = dstruct::move(ds.mXValue_d);
         mCmp_d =  dstruct::move(ds.mCmp_d);
         mStack_d =  dstruct::move(ds.mStack_d);
+        mXStack_d =  dstruct::move(ds.mXStack_d);
         return *this;
     }
 
@@ -51,8 +53,10 @@ public:
     T getXValue() const { return mXValue_d; }
 
     void push(const T &val) {
-        if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) { // pop compares by value, so save for equal value too
-            mStack_d.push(mXValue_d); // save XValue
+        if (mStack_d.empty()) {
+            mXValue_d = val;
+        } else if (!mCmp_d(mXValue_d, val)) { // pop compares by value, so save for equal value too
+            mXStack_d.push(mXValue_d); // save XValue
             mXValue_d = val;
         }
         mStack_d.push(val);
@@ -60,14 +64,15 @@ public:
 
     void pop() {
         T data = mStack_d.top(); mStack_d.pop();
-        if (mXValue_d == data) {
-            mXValue_d = mStack_d.top(); mStack_d.pop();
+        if (!mStack_d.empty() && mXValue_d == data) {
+            mXValue_d = mXStack_d.top(); mXStack_d.pop();
         }
         // return dstruct::move(data);
     }
 
     void clear() {
         mStack_d.clear();
+        mXStack_d.clear();
     }
 
     // Iterator/range-for
@@ -78,6 +83,7 @@ protected:
     T mXValue_d;
     Compare mCmp_d;
     StackType mStack_d;
+    StackType mXStack_d; // saved XValue
 };
 
 }
-- 
2.43.0


From a4d532e17787e78f16565c844536b7f40f295ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 18/41] fix: DisjointSet joining a set with itself has no
 effect

---
 core/ds/set/DisjointSet.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..ee82560 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -72,6 +72,7 @@ public:
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
+        if (root1 == root2) return; // already in the same set
         if (root1 < root2) {
             mArray_d[root2] = root1;
         } else {
-- 
2.43.0


From 0da0e3a8e8628f0bbb664c30ebdeed5dc7449908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 19/41] fix: DisjointSet unions by rank, so find never recurses
 through long chains

---
 core/ds/set/DisjointSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index ee82560..09378b6 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -73,8 +73,8 @@ public:
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
         if (root1 == root2) return; // already in the same set
-        if (root1 < root2) {
-            mArray_d[root2] = root1;
+        if (mArray_d[root2] < mArray_d[root1]) { // union by rank(stored as negative number)
+            mArray_d[root1] = root2;
         } else {
             if (mArray_d[root1] == mArray_d[root2])
                 mArray_d[root1]--;
-- 
2.43.0


From 80b93fd63daac15390555585b500f30cc30601f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 20/41] fix: begin of an empty tree is its end

---
 core/ds/tree/BinaryTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..c86d0c6 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -211,7 +211,7 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
-        if (ttype != TraversalType::PreOrder) {
+        if (first != nullptr && ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
             }
-- 
2.43.0


From 80422ce58c6b38a79a2c31b3a7f6c18741372523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 21/41] fix: tree traversal visits the whole tree in every
 order

---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index c86d0c6..295df82 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From 86715af89e2192850adb4cbf2794da0d9cc64b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 22/41] fix: postorder tree iterators visit every node,
 children first

---
 core/ds/tree/BinaryTree.hpp         |  4 +++-
 core/ds/tree/EmbeddedBinaryTree.hpp | 27 +++++++++++++--------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 295df82..e4595bb 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -211,7 +211,9 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
-        if (first != nullptr && ttype != TraversalType::PreOrder) {
+        if (first != nullptr && ttype == TraversalType::PostOrder) {
+            first = first_postorder(first);
+        } else if (first != nullptr && ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
             }
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..22a2ee1 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -135,26 +135,25 @@ static void inorder_traversal(BinaryTreeLink_ *root, Callback &cb) {
     }
 }
 
+static BinaryTreeLink_ * first_postorder(BinaryTreeLink_ *link) {
+    while (link->left != nullptr || link->right != nullptr) {
+        if (link->left != nullptr) {
+            link = link->left;
+        } else {
+            link = link->right;
+        }
+    }
+    return link;
+}
+
 static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
     if (link == nullptr) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
-        while (link->left != nullptr || link->right != nullptr) {
-            if (link->left != nullptr) {
-                link = link->left;
-            } else {
-                link = link->right;
-            }
-        }
-        return link;
-    }
-
     // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
+    if (link->parent != nullptr && link->parent->right != nullptr && link->parent->right != link) {
+        return first_postorder(link->parent->right);
     }
     return link->parent;
 }
-- 
2.43.0


From da74fe9145334254d641d30e741dea6bd8ad3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 23/41] fix: BinarySearchTree copy compiles and copies the tree

---
 core/ds/tree/BinaryTree.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index e4595bb..868c904 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,15 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, Node_(root->data));
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        newRoot->link.left = Node_::to_link(copy(Node_::to_node(root->link.left)));
+        if (newRoot->link.left)
+            newRoot->link.left->parent = Node_::to_link(newRoot);
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        newRoot->link.right = Node_::to_link(copy(Node_::to_node(root->link.right)));
+        if (newRoot->link.right)
+            newRoot->link.right->parent = Node_::to_link(newRoot);
 
         return newRoot;
     }
-- 
2.43.0


From e8bb0b663efce58a0c17b692ec6fd3975b240186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 24/41] fix: BinarySearchTree size does not count a duplicate
 which is not inserted

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..ad5ee1c 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,6 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
     }
 
     void pop(const T &obj) {
@@ -166,6 +165,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From 261b22d251ff0a33e89efbfc6f5d3c6489ab5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 25/41] fix: pop of an absent value leaves a tree or map
 unchanged

---
 core/ds/tree/AVLTree.hpp          | 1 +
 core/ds/tree/BinarySearchTree.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..42db277 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -297,6 +297,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not found
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index ad5ee1c..91cb20b 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -187,6 +187,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not found
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From 27be6161ede13ac2fd738fbd6510a9333fe7dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 26/41] fix: BinarySearchTree replaces a removed node by its
 successor

---
 core/ds/tree/BinarySearchTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 91cb20b..c635da3 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -208,9 +208,9 @@ protected:
         } else if (nullptr == linkPtr->right) {
             subTree = linkPtr->left;
         } else { // have l and r, haven't del the node directly
-            // step1: find right-bot
+            // step1: find the successor
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From a4f294f08fb89bb443f9a8676819667499baa422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 27/41] fix: BinarySearchTree erase finds the node of
 over-aligned types

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index c635da3..2a36b86 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -94,7 +94,7 @@ public:
     typename BinarySearchTree::ConstIteratorType
     erase(typename BinarySearchTree::ConstIteratorType it) {
 
-        auto target = Node_::data_to_link(it.operator->());
+        auto target = it._get_link_pointer(); // data isn't always adjacent to link(over-aligned type)
         auto parent = target->parent;
         auto next = it; it++; // get next node
 
-- 
2.43.0


From f2f1e0efcc48a643cd5c88e13d0e22732c8522ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 28/41] fix: AVLTree and Map copies own their nodes, moved-from
 ones are empty

---
 core/ds/tree/AVLTree.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 42db277..a874708 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,31 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
+    ~AVLTree() = default;
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From b1eb069f6419741faa939531a8054eb6665a26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 29/41] fix: AVLTree erase of the root updates the root

---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index a874708..43dee8e 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -291,6 +291,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -313,6 +315,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From 4882ecba03d60f6cff66b11253be8f92dcb66f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 30/41] fix: Map erase compiles

---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 43dee8e..7be2180 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -166,17 +166,10 @@ public:
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
         decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
 
-        _delete_by_target(target);
+        _delete_by_target(target); // only relinks other nodes, next is still valid
 
-        return needUpdateNext ? find(nextData) : next;
+        return next;
     }
 
     int height() const {
-- 
2.43.0


From e9b9705fcb47a97badf75a374329450932fd7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 31/41] fix: lookup in a const Map compiles

---
 core/ds/Map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..f159e84 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -114,7 +114,7 @@ public: // Access & Modifiers
     }
 
 public:
-    IteratorType find(const KeyType &key) {
+    IteratorType find(const KeyType &key) const {
         return mDStruct_d.find(KeyValueType { key, ValueType() });
     }
 
-- 
2.43.0


From bcc87a2382b9eebd0b38bc24a015973177e0e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 32/41] fix: AVLTree begin/end use the requested traversal
 order

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 7be2180..f68cebd 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -180,12 +180,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From 12c019a995da5152788f77163f3ef1d77e8beabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 33/41] fix: StaticMemAllocator hands out aligned memory

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From dd30c471385038e99bd1cd078bb39bb4bcd74bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 34/41] fix: StaticMemAllocator rejects sizes it cannot serve

---
 memory/StaticMemAllocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..3056c35 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,8 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        if (bytes <= 0 || bytes > MEMORY_SIZE) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From 6e93f35bac671db6bb774e7510d23faa703b9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 35/41] fix: StaticMemAllocator merge joins all adjacent free
 memory

---
 memory/StaticMemAllocator.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 3056c35..2b34164 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -234,7 +234,7 @@ protected: // quick allocator
                     insert_mem_block_to_list_d(firstMemBlockPtr, INDEX_TO_SIZE_(listIndex));
                 } else {
                     bool secondMemBlockFlag = false;
-                    for (int j = i + 1; j < mFreeMemList_d.size() - 1 && !secondMemBlockFlag; j++) {
+                    for (int j = i + 1; j < mFreeMemList_d.size() && !secondMemBlockFlag; j++) { // include mem-pool
                         auto secondMemLinkPtr = &(mFreeMemList_d[j]);
                         secondMemBlockPtr = secondMemLinkPtr->next;
                         while (secondMemBlockPtr != nullptr) {
@@ -244,7 +244,9 @@ protected: // quick allocator
                               xDown              -->   |     |
                                                        +-----+
                             */
-                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - (j + 1) * SMA_MEM_ALIGN;
+                            int secondMemBlockSize = j == mFreeMemList_d.size() - 1 ?
+                                MemBlock_e::to_node(secondMemBlockPtr)->data : INDEX_TO_SIZE_(j);
+                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - secondMemBlockSize;
                             void *addrDown = reinterpret_cast<char *>(firstMemBlockPtr) + (i + 1) * SMA_MEM_ALIGN;
 
                             if (SMA_ADDRESS_EQUAL(addrUP, secondMemBlockPtr) || SMA_ADDRESS_EQUAL(addrDown, secondMemBlockPtr)) { // check merge-able
@@ -252,13 +254,13 @@ protected: // quick allocator
                                 secondMemLinkPtr->next = secondMemBlockPtr->next; // delete secondMemBlock from list[j]
                                 insert_mem_block_to_list_d(
                                     firstMemBlockPtr < secondMemBlockPtr ? firstMemBlockPtr : secondMemBlockPtr,
-                                    INDEX_TO_SIZE_(i + j + 1)
+                                    INDEX_TO_SIZE_(i) + secondMemBlockSize
                                 );
                                 secondMemBlockFlag = true;
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (firstMemBlockPtr < secondMemBlockPtr) break; // list is sorted by address
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From 4b5e7724cd89073dfbf1213d2f54b496a8658479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 36/41] fix: ENABLE_SMA_LOG compiles

---
 port/static-memory/sma-dstruct-port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/port/static-memory/sma-dstruct-port.hpp b/port/static-memory/sma-dstruct-port.hpp
index 735f9ab..d1c0318 100644
--- a/port/static-memory/sma-dstruct-port.hpp
+++ b/port/static-memory/sma-dstruct-port.hpp
@@ -16,7 +16,7 @@
 #ifdef ENABLE_SMA_LOG
 #include <cstdio>
 #undef SMA_LOGD
-#define SMA_LOGD(...) printf(__VAARGS__); printf("\n")
+#define SMA_LOGD(...) printf(__VA_ARGS__); printf("\n")
 #endif
 
 #include <memory/StaticMemAllocator.hpp>
-- 
2.43.0


From ec95e4af43a47693b77edab10f3740bf3caf6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 37/41] fix: DoubleEndedQueue growth keeps all elements when
 blocks are adjacent in memory

---
 core/ds/queue/DoubleEndedQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index c5e86af..e6bce8e 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -411,7 +411,8 @@ protected:
             mEnd_d._sync();
 
             // only if old_mEnd == mBegin_d
-            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            // Note: end of an array may have the same address as begin of another one
+            if (mSize_d == 0) {
                 mBegin_d = mEnd_d;
             }
         }
-- 
2.43.0


From 4e15b21dd6bde3f9fc60442b3b099acf48329f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 38/41] fix: moving a deque or tree iterator onto itself lost
 its position

---
 core/ds/queue/DoubleEndedQueue.hpp | 2 ++
 core/ds/tree/BinaryTree.hpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index e6bce8e..2d4d4d6 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -60,6 +60,8 @@ public:
 
     DoubleEndedQueueIterator_(Self &&it) { *this = dstruct::move(it); }
     Self & operator=(Self &&it) {
+        if (this == &it) return *this;
+
         // move
         mCurrMapIndex_d = it.mCurrMapIndex_d;
         mCurr_d = it.mCurr_d;
diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 868c904..06cbbb9 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -40,6 +40,8 @@ public: // bigfive
 
     BinaryTreeIterator_(BinaryTreeIterator_ &&it) { *this = dstruct::move(it); }
     BinaryTreeIterator_ & operator=(BinaryTreeIterator_ &&it) {
+        if (this == &it) return *this;
+
         mTreeNodeLinkPtr_d = it.mTreeNodeLinkPtr_d;
         mNextFunc_d = it.mNextFunc_d;
 
-- 
2.43.0


From 357de2308c239cd9cf0eb955a317a89911e0281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 39/41] fix: copying an empty min/max stack read an
 uninitialised value

---
 core/ds/stack/XValueStack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 76582fe..10d96f9 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -24,8 +24,8 @@ class XValueStack {
     DSTRUCT_TYPE_SPEC_HELPER(StackType)
 
 public:
-    XValueStack() = default;
-    XValueStack(const Compare &cmp) : mCmp_d { cmp } { }
+    XValueStack() : mXValue_d() { }
+    XValueStack(const Compare &cmp) : mXValue_d(), mCmp_d { cmp } { }
 
     DSTRUCT_COPY_SEMANTICS(XValueStack) {
         this->mXValue_d = ds.mXValue_d;
-- 
2.43.0


From 365fe08b5fe44f4e20110547a1094290e5f509bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:21 +0000
Subject: [PATCH 40/41] fix: begin(PostOrder) of an empty tree crashed in
 optimised builds

to_link formed the address of a member of a null node for the root of an
empty tree, so that compilers dropped the null check after it.
---
 core/ds/tree/tree-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/tree-base.hpp b/core/ds/tree/tree-base.hpp
index 4850ef1..b187c52 100644
--- a/core/ds/tree/tree-base.hpp
+++ b/core/ds/tree/tree-base.hpp
@@ -30,7 +30,7 @@ struct TreeNode {
     }
 
     static Link * to_link(TreeNode *node) {
-        return &(node->link);
+        return node == nullptr ? nullptr : &(node->link);
     }
 
     static Link * data_to_link(const T *data) {
-- 
2.43.0


From c38ee046ac763bb683b473eb8bd8f5687235d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:21 +0000
Subject: [PATCH 41/41] fix: the end of a tree is an iterator without element

_sync formed the address of a member of a null node.
---
 core/ds/tree/BinaryTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 06cbbb9..dee32d3 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -88,7 +88,7 @@ public:
 
 private:
     void _sync() {
-        Self::mPointer_d = &(Node_::to_node(mTreeNodeLinkPtr_d)->data);
+        Self::mPointer_d = mTreeNodeLinkPtr_d == nullptr ? nullptr : &(Node_::to_node(mTreeNodeLinkPtr_d)->data);
     }
 
 protected:
-- 
2.43.0

