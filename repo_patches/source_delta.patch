From 46a092f92e654bac18c941dceb3aa7e7e90e8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 01/37] fix: Vector copy must not destroy elements that were
 never constructed

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From 4d18fdc4cfd5526b43d9b6ad19af0cbd28c45542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 02/37] fix: Vector push_back and resize accept a reference to
 an own element

---
 core/ds/array/Vector.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..c4a2aa3 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,12 +96,15 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            T obj = element; // element may be in the storage that resize releases
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            dstruct::construct(mC_d + mSize_d, obj);
+        } else {
+            dstruct::construct(mC_d + mSize_d, element);
         }
-        dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
     }
 
@@ -190,6 +193,11 @@ public:
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
 
+        // set (before release: element may be in the old storage)
+        for (int i = mSize_d; i < n; i++) {
+            dstruct::construct(mC_d + i, element);
+        }
+
         // release
         if (oldC) {
             for (int i = 0; i < mSize_d; i++) {
@@ -200,11 +208,6 @@ public:
             Vector::Alloc_::deallocate(oldC, mCapacity_d);
         }
 
-        // set
-        for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
-        }
-
         mCapacity_d = mSize_d = n;
     }
 
-- 
2.43.0


From 32abd973721e15c009776a1fe77ec461a0594bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 03/37] fix: Deque works with any allocator and takes its map
 table from the given one

---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..c4e4287 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -75,7 +75,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -157,12 +157,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From cbd2e3607663f905e900b4c920a31038902cb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 04/37] fix: an empty or cleared Deque has equal, defined begin
 and end iterators

---
 core/ds/queue/DoubleEndedQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index c4e4287..6088957 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,7 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d { nullptr }, mArrMapTablePtr_d { nullptr } { _sync(); }
 
 public:
     DoubleEndedQueueIterator_(
@@ -323,7 +323,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = decltype(mBegin_d)();
         }
     }
 
-- 
2.43.0


From 9fd9453951dc3ffed6e1f3a2180b13de565a75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 05/37] fix: Deque must not construct elements in unused slots
 that nobody destroys

---
 core/ds/queue/DoubleEndedQueue.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 6088957..b958f1e 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -337,8 +337,7 @@ protected:
         mArrMapTable_d.resize(MIN_MAP_TABLE_SIZE, nullptr);
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
-            mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
+            mArrMapTable_d[i] = AllocArray_::allocate(); // elements are constructed when pushed
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -375,8 +374,7 @@ protected:
         // build new map table
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
-                mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
+                mArrMapTable_d[i] = AllocArray_::allocate(); // elements are constructed when pushed
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From c74d272bd56207ec34409103ed4ce586693e63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 06/37] fix: a moved Deque's iterators refer to its own map
 table

---
 core/ds/queue/DoubleEndedQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index b958f1e..97d4344 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -192,6 +192,9 @@ public:
         mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
+        if (mCapacity_d != 0) { // the map table moved along
+            mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
+        }
 
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
-- 
2.43.0


From c55a6fed6f0916c0291ac6795addc40b45b07d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 07/37] fix: Deque shrinks when its arrays fit in the smaller
 table, not when they do not

---
 core/ds/queue/DoubleEndedQueue.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 97d4344..5de1f8c 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -363,11 +363,8 @@ protected:
         size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;
         size_t newArrEndIndex = newArrStartIndex + arrNum;
 
-        // request: n / ARR_SIZE <= ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-        // n = y * oldCapacity  
-        if (!isExtend && newMapTableSize >= arrNum) {
-            // when arrNum = ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-            // exist newMapTableSize < arrNum
+        // shrink only if the used arrays, and the one behind the end, fit in the new table
+        if (!isExtend && newMapTableSize <= newArrEndIndex + 1) {
             return;
         }
 
-- 
2.43.0


From 55ad2deb9b8497d465c6f15e91eccd5f0f0f4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 08/37] fix: copying a SinglyLinkedList copies every element
 and keeps its own tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..01ec66b 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -77,10 +77,9 @@ public: // big five
                 push_back(nodePtr->data);
                 linkPtr = nextLinkPtr;
                 nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
+                nodePtr = Node_::to_node(linkPtr);
             }
             push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
         }
         return *this;
     }
-- 
2.43.0


From e05435cea246ae82ad494c69efe46d0871a1b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 09/37] fix: SinglyLinkedList push and pop keep the tail
 pointer up to date

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 01ec66b..3efff3f 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -115,6 +115,14 @@ public:
         mTailNodePtr_d = nPtr;
     }
 
+    void push(const T &obj) {
+        push_front(obj);
+    }
+
+    void pop() {
+        pop_front();
+    }
+
     void push_front(const T &obj) {
         List_::push_front(obj);
         if (mSize_d == 1)
-- 
2.43.0


From 8a3c5515a420a8a63475a6c70d23707d146b079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 10/37] fix: moving from an empty linked list leaves both lists
 as proper empty rings

---
 core/ds/linked-list/LinkedList.hpp       | 3 +++
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ds/linked-list/LinkedList.hpp b/core/ds/linked-list/LinkedList.hpp
index 6bff19b..3876c37 100644
--- a/core/ds/linked-list/LinkedList.hpp
+++ b/core/ds/linked-list/LinkedList.hpp
@@ -49,6 +49,9 @@ public: // big five
         // 2.only move data
         LinkedList_::mHeadNode_d = ds.mHeadNode_d;
         LinkedList_::mSize_d = ds.mSize_d;
+        if (mSize_d == 0) { // the ring of an empty list is its own head node
+            Node_::init(&mHeadNode_d);
+        }
         // 3.spec move impl in subclass
         // 4.reset
         Node_::init(&(ds.mHeadNode_d));
diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 3efff3f..48ec395 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -87,7 +87,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d != 0 ? ds.mTailNodePtr_d : &mHeadNode_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From b41158d2ba48e96ada58a3fe36d398732ff87963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 11/37] fix: XValueStack keeps its extremes apart: right with
 equal values, after clear and when iterated

---
 core/ds/stack/XValueStack.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..86e7251 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -28,14 +28,14 @@ public:
     XValueStack(const Compare &cmp) : mCmp_d { cmp } { }
 
     DSTRUCT_COPY_SEMANTICS(XValueStack) {
-        this->mXValue_d = ds.mXValue_d;
+        this->mXStack_d = ds.mXStack_d;
         this->mCmp_d = ds.mCmp_d;
         this->mStack_d = ds.mStack_d;
         return *this;
     }
 
     DSTRUCT_MOVE_SEMANTICS(XValueStack) {
-        mXValue_d = dstruct::move(ds.mXValue_d);
+        mXStack_d = dstruct::move(ds.mXStack_d);
         mCmp_d =  dstruct::move(ds.mCmp_d);
         mStack_d =  dstruct::move(ds.mStack_d);
         return *this;
@@ -48,26 +48,27 @@ public:
 
     T top() const { return mStack_d.top(); }
 
-    T getXValue() const { return mXValue_d; }
+    T getXValue() const { return mXStack_d.top(); }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
-            mStack_d.push(mXValue_d); // save XValue
-            mXValue_d = val;
-        }
         mStack_d.push(val);
+        // an equal value is saved too: it is still there when the first one has been popped
+        if (mXStack_d.empty() || !mCmp_d(mXStack_d.top(), mStack_d.top())) {
+            mXStack_d.push(mStack_d.top());
+        }
     }
 
     void pop() {
         T data = mStack_d.top(); mStack_d.pop();
-        if (mXValue_d == data) {
-            mXValue_d = mStack_d.top(); mStack_d.pop();
+        if (!mCmp_d(mXStack_d.top(), data)) {
+            mXStack_d.pop();
         }
         // return dstruct::move(data);
     }
 
     void clear() {
         mStack_d.clear();
+        mXStack_d.clear();
     }
 
     // Iterator/range-for
@@ -75,9 +76,9 @@ public:
     ConstIteratorType end() const { return mStack_d.end(); }
 
 protected:
-    T mXValue_d;
     Compare mCmp_d;
     StackType mStack_d;
+    StackType mXStack_d; // the extreme value at each point where it changed, latest on top
 };
 
 }
-- 
2.43.0


From 204483d37658e377d2c2b9a9dad913b131f94bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 12/37] fix: moving a Heap onto itself keeps its elements

---
 core/ds/Heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index d2b98f1..f369db5 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -50,6 +50,7 @@ public:
 
     Heap(Heap &&hep) { *this = dstruct::move(hep); }
     Heap & operator=(Heap &&hep) {
+        if (this == &hep) return *this;
         this->mCmp_d = hep.mCmp_d;
         this->mHeap_d = dstruct::move(hep.mHeap_d);
         hep.mHeap_d.resize(1, this->mHeap_d[0]);
-- 
2.43.0


From b584fe037c5c4d70c2c100d7a53f4b73a3a11789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 13/37] fix: BinarySearchTree replaces a removed inner node by
 its in-order successor

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..44e90a3 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -209,7 +209,7 @@ protected:
         } else { // have l and r, haven't del the node directly
             // step1: find right-bot
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From 49d0b32efd56c23816d559d12736f436583a21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 14/37] fix: popping an absent element from a BinarySearchTree
 changes nothing

---
 core/ds/tree/BinarySearchTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 44e90a3..079d86b 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -187,6 +187,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From 9bf04e547889e20a8930d6e5cfa9f785eb222a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 15/37] fix: pushing an element a BinarySearchTree already has
 does not change its size

---
 core/ds/tree/BinarySearchTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 079d86b..d9c693d 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,7 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
+        // mSize_d++; in _insert
     }
 
     void pop(const T &obj) {
@@ -166,6 +166,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From 0c863f6f29a584bc9589ca76897cdc5a2563d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 16/37] fix: BinarySearchTree erase finds the node of
 over-aligned elements

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index d9c693d..1da46e1 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -95,7 +95,7 @@ public:
     typename BinarySearchTree::ConstIteratorType
     erase(typename BinarySearchTree::ConstIteratorType it) {
 
-        auto target = Node_::data_to_link(it.operator->());
+        auto target = it._get_link_pointer();
         auto parent = target->parent;
         auto next = it; it++; // get next node
 
-- 
2.43.0


From 9619c8882053bd60c23028e261a1702fe295e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 17/37] fix: copying a binary tree compiles and constructs the
 copied elements

---
 core/ds/tree/BinaryTree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..8e81e18 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,16 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, Node_(root->data));
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        auto &link = newRoot->link;
+        link.left = Node_::to_link(copy(Node_::to_node(root->link.left)));
+        if (link.left)
+            link.left->parent = &link;
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        link.right = Node_::to_link(copy(Node_::to_node(root->link.right)));
+        if (link.right)
+            link.right->parent = &link;
 
         return newRoot;
     }
-- 
2.43.0


From 537a126e2ff44fe3b0f808d9fa0465535698e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 18/37] fix: callback traversal of a binary tree starts at the
 root in every order

---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 8e81e18..1d4a730 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From 27ffb5154bf51ae6d2d7f2e2d2242945913a2c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 19/37] fix: begin of an empty binary tree is its end

---
 core/ds/tree/BinaryTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 1d4a730..6af62f1 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -211,7 +211,7 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
-        if (ttype != TraversalType::PreOrder) {
+        if (first != nullptr && ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
             }
-- 
2.43.0


From d8dde7111f8ec8e7333c7fbd55aca6642db108e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 20/37] fix: post-order iteration of a binary tree visits every
 node, children before parents

---
 core/ds/tree/BinaryTree.hpp         |  3 +++
 core/ds/tree/EmbeddedBinaryTree.hpp | 32 ++++++++++++++---------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 6af62f1..84d8d3b 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -216,6 +216,9 @@ public:
                 first = first->left;
             }
         }
+        if (first != nullptr && ttype == TraversalType::PostOrder) {
+            first = tree::first_postorder(first);
+        }
         return first;
     }
 
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..b3f9c83 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -135,28 +135,28 @@ static void inorder_traversal(BinaryTreeLink_ *root, Callback &cb) {
     }
 }
 
+static BinaryTreeLink_ * first_postorder(BinaryTreeLink_ *link) {
+    while (link->left != nullptr || link->right != nullptr) {
+        if (link->left != nullptr) {
+            link = link->left;
+        } else {
+            link = link->right;
+        }
+    }
+    return link;
+}
+
 static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
     if (link == nullptr) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
-        while (link->left != nullptr || link->right != nullptr) {
-            if (link->left != nullptr) {
-                link = link->left;
-            } else {
-                link = link->right;
-            }
-        }
-        return link;
-    }
-
-    // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
+    // the right sibling's sub-tree comes before the parent
+    auto parent = link->parent;
+    if (parent != nullptr && parent->right != nullptr && parent->right != link) {
+        return first_postorder(parent->right);
     }
-    return link->parent;
+    return parent;
 }
 
 template <typename Callback>
-- 
2.43.0


From 1116c6757dfe740e8403ec6837dbb27426a23491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 21/37] fix: AVLTree begin and end honour the traversal order

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..805824c 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -162,12 +162,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From 4d74a065400d9aba836b010287b8d47914112fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 22/37] fix: copies of an AVLTree or Map own their nodes, moves
 leave the source empty

---
 core/ds/tree/AVLTree.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 805824c..74e8837 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,31 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
+    ~AVLTree() = default;
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From 5b97b8ae025e1149b3f409b8e99595d765bd480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 23/37] fix: popping an absent element from an AVLTree or Map
 changes nothing

---
 core/ds/tree/AVLTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 74e8837..f59ef0f 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -322,6 +322,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From f556d39be89948be47473eeb88a8d6ee938491b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 24/37] fix: AVLTree and Map erase works for elements that
 cannot be assigned

---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index f59ef0f..318784f 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -166,17 +166,10 @@ public:
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
         decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
 
-        _delete_by_target(target);
+        _delete_by_target(target); // relinks nodes but never moves elements, so next stays valid
 
-        return needUpdateNext ? find(nextData) : next;
+        return next;
     }
 
     int height() const {
-- 
2.43.0


From 4cc6751377b64d039b1a3fcc2f707f745d933c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 25/37] fix: erasing the root of an AVLTree or Map through an
 iterator updates the root

---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 318784f..6e34585 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -284,6 +284,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -306,6 +308,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From 221109b563c17c16160bfb3b4497558334173c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 26/37] fix: the const bracket of Map compiles

---
 core/ds/Map.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..a386429 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -118,6 +118,10 @@ public:
         return mDStruct_d.find(KeyValueType { key, ValueType() });
     }
 
+    ConstIteratorType find(const KeyType &key) const {
+        return mDStruct_d.find(KeyValueType { key, ValueType() });
+    }
+
     IteratorType erase(IteratorType &it) {
         return mDStruct_d.erase(it);
     }
-- 
2.43.0


From be0ca5ebcc644b7bc362468d617515a5954a3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 27/37] fix: constructing a String from an empty C string reads
 past its terminator

---
 core/ds/string/BasicString.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..e461af7 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,11 +38,9 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
-        mCharList_d[-1] = *str;
-        while (*(++str) != '\0') {
-            mCharList_d.push_back(*str);
+        for (; *str != '\0'; ++str) {
+            push_back(*str);
         }
-        mCharList_d.push_back('\0');
     }
 
     ~BasicString() = default;
-- 
2.43.0


From ff09c29c60901a64bc38e70a59eef97481dbbbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 28/37] fix: a moved-from String is empty and terminated

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index e461af7..8845461 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear(); // keep the moved-from string terminated
         return *this;
     }
 
-- 
2.43.0


From 0cf27594aee455dc63b8487c3f1985e0fae06dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 29/37] fix: appending a String to itself terminates

---
 core/ds/string/BasicString.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 8845461..79d2b5a 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -116,11 +116,11 @@ public:
     }
 
     BasicString & operator+=(const BasicString &str) {
-        if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
-            mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
-        mCharList_d[-1] = str[0];
-        for (int i = 1; i < str.mCharList_d.size(); i++) {
-            mCharList_d.push_back(str.mCharList_d[i]);
+        const int strSize = str.size(); // str may be *this
+        if (mCharList_d.capacity() < mCharList_d.size() + strSize)
+            mCharList_d.resize(mCharList_d.size() + strSize);
+        for (int i = 0; i < strSize; i++) {
+            push_back(str[i]);
         }
         return *this;
     }
-- 
2.43.0


From 5909fa0ac19b5bc1e9a1c5c757a7598b5fe84d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 30/37] fix: DisjointSet connect of connected elements keeps
 the root

---
 core/ds/set/DisjointSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..e453a3c 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -68,7 +68,7 @@ public:
     void connect(ConstReferenceType element1, ConstReferenceType element2) {
         ValueType root1 = find(element1);
         ValueType root2 = find(element2);
-        union_set(root1, root2);
+        if (root1 != root2) union_set(root1, root2);
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
-- 
2.43.0


From 2a5f601a7cef1e78273c8b0e34771bcc69215aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 31/37] fix: align the pool of StaticMemAllocator to its
 alignment unit

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From ad96c62ef0766940cdf5b3d77fea622e2cfa3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 32/37] fix: StaticMemAllocator refuses empty, negative and
 oversized requests

---
 memory/StaticMemAllocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..3056c35 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,8 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        if (bytes <= 0 || bytes > MEMORY_SIZE) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From ce3d48c5d8619f1dfecaf03c262af619c7774c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 33/37] fix: StaticMemAllocator merge scans the whole
 address-sorted list

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 3056c35..b17f92b 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -258,7 +258,7 @@ protected: // quick allocator
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (firstMemBlockPtr < secondMemBlockPtr) break; // sorted by address
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From 520149bf8fe206756b34c04fc9638cd5580192e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 34/37] fix: StaticMemAllocator merge coalesces small blocks
 with the memory pool

---
 memory/StaticMemAllocator.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index b17f92b..6465961 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -234,7 +234,7 @@ protected: // quick allocator
                     insert_mem_block_to_list_d(firstMemBlockPtr, INDEX_TO_SIZE_(listIndex));
                 } else {
                     bool secondMemBlockFlag = false;
-                    for (int j = i + 1; j < mFreeMemList_d.size() - 1 && !secondMemBlockFlag; j++) {
+                    for (int j = i + 1; j < mFreeMemList_d.size() && !secondMemBlockFlag; j++) {
                         auto secondMemLinkPtr = &(mFreeMemList_d[j]);
                         secondMemBlockPtr = secondMemLinkPtr->next;
                         while (secondMemBlockPtr != nullptr) {
@@ -244,7 +244,9 @@ protected: // quick allocator
                               xDown              -->   |     |
                                                        +-----+
                             */
-                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - (j + 1) * SMA_MEM_ALIGN;
+                            int secondMemBlockSize = j == mFreeMemList_d.size() - 1 ?
+                                MemBlock_e::to_node(secondMemBlockPtr)->data : INDEX_TO_SIZE_(j);
+                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - secondMemBlockSize;
                             void *addrDown = reinterpret_cast<char *>(firstMemBlockPtr) + (i + 1) * SMA_MEM_ALIGN;
 
                             if (SMA_ADDRESS_EQUAL(addrUP, secondMemBlockPtr) || SMA_ADDRESS_EQUAL(addrDown, secondMemBlockPtr)) { // check merge-able
@@ -252,7 +254,7 @@ protected: // quick allocator
                                 secondMemLinkPtr->next = secondMemBlockPtr->next; // delete secondMemBlock from list[j]
                                 insert_mem_block_to_list_d(
                                     firstMemBlockPtr < secondMemBlockPtr ? firstMemBlockPtr : secondMemBlockPtr,
-                                    INDEX_TO_SIZE_(i + j + 1)
+                                    INDEX_TO_SIZE_(i) + secondMemBlockSize
                                 );
                                 secondMemBlockFlag = true;
                                 break;
-- 
2.43.0


From f483901b37dc125403005254147096358e353abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 35/37] fix: the static memory port compiles with
 ENABLE_SMA_LOG

---
 port/static-memory/sma-dstruct-port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/port/static-memory/sma-dstruct-port.hpp b/port/static-memory/sma-dstruct-port.hpp
index 735f9ab..d1c0318 100644
--- a/port/static-memory/sma-dstruct-port.hpp
+++ b/port/static-memory/sma-dstruct-port.hpp
@@ -16,7 +16,7 @@
 #ifdef ENABLE_SMA_LOG
 #include <cstdio>
 #undef SMA_LOGD
-#define SMA_LOGD(...) printf(__VAARGS__); printf("\n")
+#define SMA_LOGD(...) printf(__VA_ARGS__); printf("\n")
 #endif
 
 #include <memory/StaticMemAllocator.hpp>
-- 
2.43.0


From 07f22a28b9bcb9e17d22e910f64908acffeca442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 36/37] fix: Deque tells positions apart when its arrays are
 adjacent in memory

---
 core/ds/queue/DoubleEndedQueue.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 5de1f8c..f5dce9c 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -87,6 +87,12 @@ public:
             _sync();
     }
 
+public: // base op - the end of one array may be the address of another one
+    bool operator!=(const Self &it) const { return !(*this == it); }
+    bool operator==(const Self &it) const {
+        return Self::mPointer_d == it.mPointer_d && mCurrMapIndex_d == it.mCurrMapIndex_d;
+    }
+
 public: // ForwardIterator
     Self& operator++() {
         static int cnt = 1;
@@ -247,7 +253,7 @@ public: // push/pop
         if (mCapacity_d == 0) {
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
-        } else if (mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
+        } else if (mEnd_d.mCurr_d == mArrMapTable_d[mEnd_d.mCurrMapIndex_d]->end()) {
             _resize(mCapacity_d * 2);
         }
         dstruct::construct(&(*mEnd_d), obj);
@@ -259,7 +265,7 @@ public: // push/pop
         if (mCapacity_d == 0) {
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
-        } else if (mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
+        } else if (mBegin_d.mCurrMapIndex_d == 0 && mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
             _resize(mCapacity_d * 2);
         }
         mBegin_d--;
@@ -399,7 +405,7 @@ protected:
             mEnd_d._sync();
 
             // only if old_mEnd == mBegin_d
-            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            if (mBegin_d.mCurrMapIndex_d == newArrEndIndex && mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
                 mBegin_d = mEnd_d;
             }
         }
-- 
2.43.0


From ea665392daa1b637c8fab17056ed78330c2b0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 37/37] fix: DisjointSet::find overflows the stack on long
 chains

---
 core/ds/set/DisjointSet.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index e453a3c..57c7edb 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -48,7 +48,15 @@ public:
     ConstReferenceType find(ConstReferenceType index) {
         if (mArray_d[index] < 0)
             return index;
-        return mArray_d[index] = find(mArray_d[index]);
+        ValueType root = mArray_d[index];
+        while (mArray_d[root] >= 0)
+            root = mArray_d[root];
+        for (ValueType i = index; i != root; ) { // path compression
+            ValueType parent = mArray_d[i];
+            mArray_d[i] = root;
+            i = parent;
+        }
+        return mArray_d[index];
     }
 
     SizeType count() const {
-- 
2.43.0

