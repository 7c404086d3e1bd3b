From b1f2398e574adb28096156b8c7ae62e2ec60419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:56 +0000
Subject: [PATCH 01/25] sim: capacity knobs for the simulator, off unless
 CODD_SIM is defined

---
 src/dd.cpp      | 14 +++++++-------
 src/dd.hpp      |  6 +++---
 src/search.cpp  |  2 +-
 src/simhook.hpp | 18 ++++++++++++++++++
 src/store.hpp   |  3 ++-
 5 files changed, 31 insertions(+), 12 deletions(-)
 create mode 100644 src/simhook.hpp

diff --git a/src/dd.cpp b/src/dd.cpp
index f0f42a7..059863d 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -109,7 +109,7 @@ void AbstractDD::print(std::ostream& os,std::string gLabel)
 {
    display();
    std::cout << "PRINTING: --------------------------------------------------\n";
-   Heap<DNode> h(_mem,1000,[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
+   Heap<DNode> h(_mem,CODD_KNOB(degrees,1000),[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
    for(auto n : _an) {
       h.insert({n,n->nbParents()});
       //std::cout << *n << " #PAR:" << n->nbParents() << "\n";
@@ -130,7 +130,7 @@ void AbstractDD::print(std::ostream& os,std::string gLabel)
 
 void AbstractDD::saveGraph(std::ostream& os,std::string gLabel)
 {
-   Heap<DNode> h(_mem,1000,[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
+   Heap<DNode> h(_mem,CODD_KNOB(degrees,1000),[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
    std::cout << "AN.size()=" << _an.size() << "\n";
    for(auto n : _an) {
       std::cout << "\t";
@@ -201,7 +201,7 @@ void AbstractDD::computeBest(const std::string m)
 {
    //assert(false); // LDMFIX
    //std::cout << "ANSZ:" << _an.size() << "\n";
-   DegHeap h(_mem,1000,[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
+   DegHeap h(_mem,CODD_KNOB(degrees,1000),[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
    unsigned mxId = 0;
    for(auto n : _an) 
       mxId = std::max(n->getId(),mxId);
@@ -247,7 +247,7 @@ void AbstractDD::computeBest(const std::string m)
 
 void AbstractDD::computeBestBackward(const std::string m)
 {
-   DegHeap h(_mem,1000,[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
+   DegHeap h(_mem,CODD_KNOB(degrees,1000),[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
    unsigned mxId = 0;
    for(auto n : _an) 
       mxId = std::max(n->getId(),mxId);
@@ -310,7 +310,7 @@ void Exact::compute(Bounds& bnds)
    auto root = _dd->init();
    _dd->target();
    _dd->_exact = true;
-   CQueue<ANode::Ptr> qn(32);
+   CQueue<ANode::Ptr> qn(CODD_KNOB(queue,32));
    qn.enQueue(root);
    while (!qn.empty()) {
       auto p = qn.deQueue();
@@ -410,7 +410,7 @@ void Restricted::compute(Bounds& bnds)
    _dd->_exact = true;
    auto root = _dd->init();
    _dd->target();
-   CQueue<ANode::Ptr> qn(32);
+   CQueue<ANode::Ptr> qn(CODD_KNOB(queue,32));
    root->setLayer(0);
    qn.enQueue(root);
    while (!qn.empty()) { 
@@ -746,7 +746,7 @@ std::vector<ANode::Ptr> Relaxed::computeCutSet()
    //char ch;std::cin>>ch;
    std::vector<ANode::Ptr> cs = {};
    auto mark = _dd->_mem->mark();
-   CQueue<ANode::Ptr> qn(32);
+   CQueue<ANode::Ptr> qn(CODD_KNOB(queue,32));
    auto idSZ = _dd->getLastId() + 1;
    bool* inQueue = new (_dd->_mem) bool[idSZ];
    memset(inQueue,0,sizeof(bool)*idSZ);
diff --git a/src/dd.hpp b/src/dd.hpp
index 40191f2..f7bff5d 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -157,7 +157,7 @@ class NDArray {
    std::size_t    _st;
    std::size_t _holes;
 public:
-   NDArray(std::size_t isz=128) : _mx(isz),_sz(0),_st(0),_holes(0) {
+   NDArray(std::size_t isz=CODD_KNOB(layer,128)) : _mx(isz),_sz(0),_st(0),_holes(0) {
       _tab = new ANode::Ptr[_mx];
    }
    ~NDArray() { delete[] _tab;}
@@ -348,7 +348,7 @@ template <typename ST> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
-   DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),200000) {}
+   DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),CODD_KNOB(seen,200000)) {}
    ANode::Ptr cloneNode(ANode::Ptr src) override {
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
@@ -557,7 +557,7 @@ public:
         _eqs(eqs),
         _local(local),
         _sdom(dom),
-        _nmap(_mem,200000),
+        _nmap(_mem,CODD_KNOB(nodes,200000)),
         _ndId(0)
    {
       _baseline = _mem->mark();
diff --git a/src/search.cpp b/src/search.cpp
index a06a2aa..6df50f7 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -42,7 +42,7 @@ void BAndB::search(Bounds& bnds)
    auto hOrder = [relaxed](const QNode& a,const QNode& b) {
       return relaxed->isBetter(a.bound,b.bound);
    };
-   Heap<QNode,decltype(hOrder)> pq(bbPool->get(),64000,hOrder);
+   Heap<QNode,decltype(hOrder)> pq(bbPool->get(),CODD_KNOB(frontier,64000),hOrder);
    ANode::Ptr rootNode = bbPool->cloneNode(relaxed->init());
    if (relaxed->hasLocal()) {
       auto dualRootValue = relaxed->local(rootNode,LocalContext::BBCtx);
diff --git a/src/simhook.hpp b/src/simhook.hpp
new file mode 100644
index 0000000..e916f71
--- /dev/null
+++ b/src/simhook.hpp
@@ -0,0 +1,18 @@
+#ifndef __SIMHOOK_HPP__
+#define __SIMHOOK_HPP__
+
+/*
+ * Capacity knobs. In a normal build CODD_KNOB(name,value) *is* value. When the library is
+ * compiled with CODD_SIM (the deterministic simulator in charge of verification does that), the
+ * initial capacity of the internal tables is chosen by the simulator instead, so that the growth
+ * and collision paths get exercised with small instances.
+ */
+#ifdef CODD_SIM
+#include <cstddef>
+extern "C" std::size_t codd_sim_knob(const char* name,std::size_t dflt) noexcept;
+#define CODD_KNOB(name,value) (codd_sim_knob(#name,(value)))
+#else
+#define CODD_KNOB(name,value) (value)
+#endif
+
+#endif
diff --git a/src/store.hpp b/src/store.hpp
index c713341..e5f6506 100644
--- a/src/store.hpp
+++ b/src/store.hpp
@@ -19,6 +19,7 @@
 #include <vector>
 #include "handle.hpp"
 #include "stlAllocAdapter.hpp"
+#include "simhook.hpp"
 
 /**
  * Default segment size for storage management (4 Megs).
@@ -64,7 +65,7 @@ class Pool {
    unsigned              _nbSeg;
    unsigned                _mxs;
 public:
-   Pool(std::size_t defSize = SEGSIZE);
+   Pool(std::size_t defSize = CODD_KNOB(segment,SEGSIZE));
    ~Pool();
    //typedef std::shared_ptr<Pool> Ptr;
    typedef Pool* Ptr; // space saving measure
-- 
2.43.0


From 6c18c3a68cec6f216900d45302c3cc57ef228927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:18 +0000
Subject: [PATCH 02/25] fix: dominance test must not swallow the sink

When a model lets a transition reach the sink while its siblings are still queued, the first
arrival at the sink looked like a new node and could be found dominated by a queued node. The
node list then lost its last element (an unrelated node), and the backward bound computation
dereferenced a null heap location.
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 059863d..fe6279e 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -423,7 +423,7 @@ void Restricted::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) { // the sink is never up for dominance
                   auto dominator = checkDominance(qn,child,ep);
                   if (dominator) {
                      _dd->_an.pop_back();
@@ -702,7 +702,7 @@ void Relaxed::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) { // the sink is never up for dominance
                   auto dominator = qn.checkDominance(child,ep);
                   if (dominator) {
                      // ANode::Ptr justAdded = _dd->_an.back();
-- 
2.43.0


From c1b51116cdacfc3b1d7f927df0226a2af41db7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 03/25] fix: re-queue a subproblem whose cutset is its own root

When the exact cutset of the relaxation is the root itself the width is increased, but the
subproblem was then dropped because its state is already known to the node allocator: the search
ended with a suboptimal answer for small widths.
---
 src/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.cpp b/src/search.cpp
index 6df50f7..37d2027 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -160,7 +160,8 @@ void BAndB::search(Bounds& bnds)
                }
                assert(n->isExact());
                if (!newGuyDominated) {
-                  auto nd = bbPool->cloneNode(n);
+                  // the root is already known to bbPool: explore that very node again (with the larger width)
+                  auto nd = (n == relaxed->getRoot()) ? bbn.node : bbPool->cloneNode(n);
                   
                   //std::cout << "CLONED and got:"  << nd << "\n";
                   
-- 
2.43.0


From 5cd2e557cce4e7dfd87f3e811d72065ef71a3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:57 +0000
Subject: [PATCH 04/25] fix: do not lose solutions made of exact nodes in a
 relaxed diagram

Paths that reach the sink without meeting a relaxed node are not represented in the cutset. When
the restricted diagram missed them as well they were never looked at again, and the search could
end without the optimum.
---
 src/dd.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/dd.hpp b/src/dd.hpp
index f7bff5d..dac5e13 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -436,6 +436,27 @@ private:
          bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
       }
+      else if (_strat->dual()) {
+         // A path to the sink that goes through exact nodes only is a solution even if the rest of the
+         // diagram is relaxed. The cutset does not cover it (it has nothing below it): record the best one.
+         Edge::Ptr last = nullptr;
+         auto val = bnds.getPrimal();
+         for(auto pi = _trg->beginPar();pi != _trg->endPar();pi++) {
+            Edge::Ptr e = *pi;
+            const auto ep = e->_from->getBound() + e->_obj;
+            if (e->_from->isExact() && isBetter(ep,val)) {
+               val  = ep;
+               last = e;
+            }
+         }
+         if (last) {
+            std::vector<int> inc(last->_from->beginOptLabels(),last->_from->endOptLabels());
+            inc.push_back(last->_lbl);
+            bnds.setPrimal(val);
+            bnds.setIncumbent(inc.begin(),inc.end());
+            std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
+         }
+      }
    }
    ANode::Ptr hasNode(const ST& state) {
       Node<ST>* at = nullptr;
-- 
2.43.0


From 6f65d8b57415b90a30fbcaa7f2b979b44ea8961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:15 +0000
Subject: [PATCH 05/25] fix: a state reached again with a better bound is a new
 subproblem

The node allocator of the search dropped every cutset node whose state had been seen before, even
when the new path to it was better than all the earlier ones (or the earlier one had been
discarded by its bound), which could lose the optimum.
---
 src/dd.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index dac5e13..3e97705 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -344,7 +344,7 @@ struct Maximize {
 };
 
 
-template <typename ST> requires Printable<ST> && Hashable<ST>
+template <typename ST,class Compare = Minimize<double>> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
@@ -353,16 +353,16 @@ public:
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
       auto inMap = _nmap.getLoc(sp->get(),at);
-      if (!inMap) {
+      if (!inMap || Compare{}.better(sp->getBound(),at->getBound())) { // unknown, or reached in a better way
          auto reuse = _base->claimNode();
          if (reuse) {
             Node<ST>* nn = static_cast<Node<ST>*>(reuse.get());
             nn->resetWith(sp);
-            _nmap.safeInsertAt(inMap,nn);
+            _nmap.rawInsertAt(inMap,nn);
             return nn;
          } else {
             Node<ST>* nn = new (_base->get()) Node<ST>(_base->get(),_base->grabId(),*sp);
-            _nmap.safeInsertAt(inMap,nn);
+            _nmap.rawInsertAt(inMap,nn);
             return nn;
          }
       } else {
@@ -594,7 +594,7 @@ public:
       return AbstractDD::Ptr(new DD(std::forward<Args>(args)...));
    }
    AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept {
-      return std::shared_ptr<DDNodeAllocator<ST>>(new DDNodeAllocator<ST>(new LPool(new Pool)));
+      return std::shared_ptr<DDNodeAllocator<ST,Compare>>(new DDNodeAllocator<ST,Compare>(new LPool(new Pool)));
    }
    void printNode(std::ostream& os,ANode::Ptr n) const {
       auto sp = static_cast<const Node<ST>*>(n.get());
-- 
2.43.0


From 34255453bb01711fe461920ef6544a6bf1036cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 06/25] fix: measure elapsed time with a monotonic clock

A change of the wall clock during a search changed the elapsed time handed to
the time limit (even to negative values) and the times printed.
---
 src/RuntimeMonitor.cpp | 10 +++++-----
 src/RuntimeMonitor.hpp |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/RuntimeMonitor.cpp b/src/RuntimeMonitor.cpp
index 2b8ebd1..93f22c3 100644
--- a/src/RuntimeMonitor.cpp
+++ b/src/RuntimeMonitor.cpp
@@ -11,7 +11,7 @@
 namespace RuntimeMonitor {
    HRClock cputime()
    {
-      return std::chrono::high_resolution_clock::now();
+      return HRClock::clock::now();
    }
    std::chrono::time_point<std::chrono::system_clock> wctime()
    {
@@ -19,11 +19,11 @@ namespace RuntimeMonitor {
    }
    HRClock now()
    {
-      return std::chrono::high_resolution_clock::now();
+      return HRClock::clock::now();
    }
    double elapsedSince(HRClock then)
    {
-      auto now  = std::chrono::high_resolution_clock::now();
+      auto now  = HRClock::clock::now();
       auto diff = std::chrono::duration_cast<std::chrono::milliseconds>(now - then);
       return diff.count();
    }
@@ -39,7 +39,7 @@ namespace RuntimeMonitor {
    }   
    double elapsedSeconds(HRClock start)
    {
-      auto now  = std::chrono::high_resolution_clock::now();
+      auto now  = HRClock::clock::now();
       auto diff = std::chrono::duration_cast<std::chrono::milliseconds>(now - start);
       return static_cast<double>(diff.count()) / 1000.0;
    }
@@ -50,7 +50,7 @@ namespace RuntimeMonitor {
    }
    unsigned long elapsedSinceMicro(HRClock then)
    {
-      auto now  = std::chrono::high_resolution_clock::now();
+      auto now  = HRClock::clock::now();
       auto diff = std::chrono::duration_cast<std::chrono::microseconds>(now - then);
       return diff.count();
    }
diff --git a/src/RuntimeMonitor.hpp b/src/RuntimeMonitor.hpp
index 033f7ee..1d40d93 100644
--- a/src/RuntimeMonitor.hpp
+++ b/src/RuntimeMonitor.hpp
@@ -12,7 +12,8 @@
 #include <chrono>
 
 namespace RuntimeMonitor {
-   typedef  std::chrono::time_point<std::chrono::high_resolution_clock> HRClock;
+   // durations are measured with a clock that does not follow changes of the wall clock
+   typedef  std::chrono::time_point<std::chrono::steady_clock> HRClock;
    typedef  std::chrono::time_point<std::chrono::system_clock> SYClock;
    HRClock cputime();
    SYClock wctime();
-- 
2.43.0


From 6c1e3b4c16c0bf1f20fa2bca33db962eece7c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:06 +0000
Subject: [PATCH 07/25] fix: consult the time limit before taking a subproblem
 off the queue

The subproblem at hand when the limit was reached was dropped first, so the
summary denied that the limit was hit (LIM?:0) when it was the last one.
---
 src/search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 37d2027..cada3ab 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -67,13 +67,13 @@ void BAndB::search(Bounds& bnds)
        // }) << "\n";
        // cout << "----------------------------------------------------------------------" << "\n";
       
-      auto bbn = pq.extractMax();
-      const auto curDual = bbn.bound;
       auto now = RuntimeMonitor::cputime();
       auto fs = RuntimeMonitor::elapsedMilliseconds(start,now);
       auto fl = RuntimeMonitor::elapsedMilliseconds(last,now);
       if (_timeLimit && _timeLimit(fs))         
          break;      
+      auto bbn = pq.extractMax();
+      const auto curDual = bbn.bound;
       if (primalBetter || fl > 5000) {
          double gap = 100 * std::abs(bnds.getPrimal() - curDual) / bnds.getPrimal();      
          cout << std::fixed << "B&B(" << setw(5) << nNode << ")\t " << setprecision(6);
-- 
2.43.0


From aa7e33d50a619785293027d95e237bca5fba5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:06 +0000
Subject: [PATCH 08/25] fix: a search must not leave its solution callback
 behind

It captured a local variable of the search; the next solution recorded in the
same bounds object wrote through the dangling reference.
---
 src/dd.hpp     |  7 +++++--
 src/search.cpp | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 3e97705..4ad9423 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -42,8 +42,11 @@ public:
       for(const auto& f : _checker)
          f(_inc);
    }
-   void onSolution(SolutionCB cb) {
-      _checker.push_back(cb);
+   std::list<SolutionCB>::iterator onSolution(SolutionCB cb) {
+      return _checker.insert(_checker.end(),cb);
+   }
+   void removeOnSolution(std::list<SolutionCB>::iterator at) {
+      _checker.erase(at);
    }
    friend std::ostream& operator<<(std::ostream& os,const Bounds& b) {
       return os << "<P:" << b._primal << /* "," << " D:" << b._dual << */ ", INC:" << b._inc << ">";
diff --git a/src/search.cpp b/src/search.cpp
index cada3ab..7164c26 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -18,6 +18,17 @@ struct QNode {
    }
 };
 
+// Registers a callback for as long as this object lives.
+class SolutionWatch {
+   Bounds&                     _bnds;
+   std::list<SolutionCB>::iterator _at;
+public:
+   SolutionWatch(Bounds& bnds,SolutionCB cb) : _bnds(bnds),_at(bnds.onSolution(cb)) {}
+   ~SolutionWatch() { _bnds.removeOnSolution(_at);}
+   SolutionWatch(const SolutionWatch&) = delete;
+   SolutionWatch& operator=(const SolutionWatch&) = delete;
+};
+
 void BAndB::search(Bounds& bnds)
 {
    auto bbPool = _theDD->makeNDAllocator();
@@ -29,10 +40,10 @@ void BAndB::search(Bounds& bnds)
    cout << "B&B searching..." << endl;
    bnds.attach(_theDD);
    double optTime = 0.0;
-   bnds.onSolution([ss,start,&optTime](const auto& lbls) {
+   SolutionWatch watch(bnds,[ss,start,&optTime](const auto& lbls) {
       optTime = RuntimeMonitor::elapsedSince(start);
       std::cout << "TIME:" << setprecision(ss) << optTime << "\n";
-   });
+   }); // must not outlive this search: it refers to its variables
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
    WidthBounded* ddr[2];
-- 
2.43.0


From 20eb5ac91d7d2b431567eafa377369555527a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 09/25] fix: a search gives back the memory it allocated

The pool of the open subproblems (at least 4 MB), the states stored in it, the
two strategies and, when a dominance test threw, a scratch array were leaked by
every search.
---
 src/dd.hpp     | 12 +++++++++++-
 src/search.cpp | 14 +++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 4ad9423..59488d6 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -58,7 +58,12 @@ protected:
    LPool::Ptr _base;
 public:
    AbstractNodeAllocator(LPool::Ptr base) : _base(base) {}
-   virtual ~AbstractNodeAllocator() {}
+   AbstractNodeAllocator(const AbstractNodeAllocator&) = delete;
+   AbstractNodeAllocator& operator=(const AbstractNodeAllocator&) = delete;
+   virtual ~AbstractNodeAllocator() { // the allocator owns its pool
+      delete _base->get();
+      delete _base;
+   }
    virtual ANode::Ptr cloneNode(ANode::Ptr src) = 0;
    virtual void release(ANode::Ptr src) = 0;
    Pool::Ptr get() const noexcept { return _base->get();}
@@ -352,6 +357,11 @@ class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
    DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),CODD_KNOB(seen,200000)) {}
+   ~DDNodeAllocator() {
+      _nmap.doOnAll([](Node<ST>* np) {
+         np->~Node<ST>();
+      });
+   }
    ANode::Ptr cloneNode(ANode::Ptr src) override {
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
diff --git a/src/search.cpp b/src/search.cpp
index 7164c26..32aea7c 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -46,10 +46,11 @@ void BAndB::search(Bounds& bnds)
    }); // must not outlive this search: it refers to its variables
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
-   WidthBounded* ddr[2];
    //_theDD->setStrategy(new Exact);
-   relaxed->setStrategy(ddr[0] = new Relaxed(_mxw));
-   restricted->setStrategy(ddr[1] = new Restricted(_mxw));
+   Relaxed relaxation(_mxw);
+   Restricted restriction(_mxw);
+   relaxed->setStrategy(&relaxation);
+   restricted->setStrategy(&restriction);
    auto hOrder = [relaxed](const QNode& a,const QNode& b) {
       return relaxed->isBetter(a.bound,b.bound);
    };
@@ -134,8 +135,8 @@ void BAndB::search(Bounds& bnds)
                //relaxed->printNode(std::cout,n);
                
                if (n == relaxed->getRoot()) { // the cutset is the root. Only way out: increase width.
-                  auto w = ddr[0]->getWidth() + 1;
-                  ddr[0]->setWidth(w);
+                  auto w = relaxation.getWidth() + 1;
+                  relaxation.setWidth(w);
                   std::cout << "\t-->widening... " << w << " CUTSET SIZE:" << cutSet.size() <<  "\n";
                }
                // use the bound in n (the ones in nd are _reset_ when duplicate occurs????)
@@ -149,7 +150,7 @@ void BAndB::search(Bounds& bnds)
                if (relaxed->hasDominance()) {
                   unsigned d = 0;
                   auto pqSz = pq.size();
-                  auto allLocs = new Heap<QNode,decltype(hOrder)>::LocType*[pqSz];
+                  std::vector<Heap<QNode,decltype(hOrder)>::LocType*> allLocs(pqSz);
                   for(unsigned k = 0;k < pqSz;k++) {
                      auto bbn = pq[k];
                      bool isObjDom   = relaxed->isBetterEQ(bbn->value().node->getBound(),n->getBound());
@@ -167,7 +168,6 @@ void BAndB::search(Bounds& bnds)
                         pq.remove(allLocs[i]);
                      pruned += d;
                   }
-                  delete[]allLocs;
                }
                assert(n->isExact());
                if (!newGuyDominated) {
-- 
2.43.0


From e5a1640670adf8f9ca49b53668632d11c81c27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:52 +0000
Subject: [PATCH 10/25] fix: exact diagrams of models with a local bound

The bounds of the nodes were only known after the expansion, yet transition()
prunes with them: every arc below the first layer was dropped.
---
 src/dd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index fe6279e..34d2f4c 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -323,6 +323,9 @@ void Exact::compute(Bounds& bnds)
             Edge::Ptr e = new (_dd->_mem) Edge(p,child,l);
             e->_obj = theCost;
             _dd->addArc(e); // connect to new node
+            auto ep = p->getBound() + theCost;
+            if (_dd->isBetter(ep,child->getBound())) // transition() prunes with the bound of its source
+               child->setBound(ep);
             if (!_dd->eqSink(child)) {
                if (newNode)
                   qn.enQueue(child);
-- 
2.43.0


From 3b85742396999fc901cf33b5e0b78aec1ccb5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:51 +0000
Subject: [PATCH 11/25] fix: record a solution and its value together

---
 src/dd.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 59488d6..71f8559 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -42,6 +42,16 @@ public:
       for(const auto& f : _checker)
          f(_inc);
    }
+   /** Record a solution and its value together: nothing changes if there is no memory for it. */
+   void setSolution(double p,auto begin,auto end) {
+      std::vector<int> inc;
+      for(auto it = begin;it != end;it++)
+         inc.push_back(*it);
+      _inc.swap(inc);
+      setPrimal(p);
+      for(const auto& f : _checker)
+         f(_inc);
+   }
    std::list<SolutionCB>::iterator onSolution(SolutionCB cb) {
       return _checker.insert(_checker.end(),cb);
    }
@@ -440,13 +450,11 @@ private:
    double initialWorst() const noexcept { return Compare{}.worstValue();}
    void update(Bounds& bnds) const {
       if (_strat->primal())  {
-         bnds.setPrimal(DD::better(_trg->getBound(),bnds.getPrimal()));
-         bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
+         bnds.setSolution(DD::better(_trg->getBound(),bnds.getPrimal()),_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "P TIGHTEN: " << bnds << "\n";
       }
       else if (_strat->dual() && _exact) {
-         bnds.setPrimal(DD::better(_trg->getBound(),bnds.getPrimal()));
-         bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
+         bnds.setSolution(DD::better(_trg->getBound(),bnds.getPrimal()),_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
       }
       else if (_strat->dual()) {
@@ -465,8 +473,7 @@ private:
          if (last) {
             std::vector<int> inc(last->_from->beginOptLabels(),last->_from->endOptLabels());
             inc.push_back(last->_lbl);
-            bnds.setPrimal(val);
-            bnds.setIncumbent(inc.begin(),inc.end());
+            bnds.setSolution(val,inc.begin(),inc.end());
             std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
          }
       }
-- 
2.43.0


From 5a6d8ff44674139b4ae1b1c2b9806b48632a0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 12/25] fix: a failed allocation leaves the pool usable

---
 src/store.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/store.cpp b/src/store.cpp
index 47c0864..4555dea 100644
--- a/src/store.cpp
+++ b/src/store.cpp
@@ -28,7 +28,12 @@ Pool::Pool(std::size_t defSize)
      _mxs(32)
 {
    _store = new Segment*[_mxs];
-   _store[0] = new Segment(_segSize);
+   try {
+      _store[0] = new Segment(_segSize);
+   } catch(...) {
+      delete[] _store;
+      throw;
+   }
 }
 
 Pool::~Pool()
@@ -46,8 +51,7 @@ void* Pool::allocate(std::size_t sz)
    auto s = _store[_seg];
    while(_top + sz > s->_sz) {
       assert(_top != 0);
-      ++_seg;
-      if (_seg >= _nbSeg) {
+      if (_seg + 1 >= _nbSeg) {
          if (_nbSeg == _mxs) {
             Segment** tab = new Segment*[_mxs << 1];
             for(auto i = 0u;i < _mxs;++i) tab[i] = _store[i];
@@ -55,8 +59,10 @@ void* Pool::allocate(std::size_t sz)
             _store = tab;
             _mxs <<= 1;
          }
-         _store[_nbSeg++] = new Segment(std::max(_segSize,sz));
+         _store[_nbSeg] = new Segment(std::max(_segSize,sz));
+         ++_nbSeg; // only now: if there is no memory the pool is as before
       }
+      ++_seg;
       _top = 0;
       s = _store[_seg];
    }
-- 
2.43.0


From a066ada05a384909c3995f4c2e67db853bb98413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 13/25] fix: a queue that cannot grow is left as it was

---
 src/queue.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/queue.hpp b/src/queue.hpp
index bdfaef5..419ac05 100644
--- a/src/queue.hpp
+++ b/src/queue.hpp
@@ -17,6 +17,7 @@
 #define __QUEUE_H
 
 #include <iostream>
+#include <memory>
 #include <utility>
 
 template <typename T> class CQueue;
@@ -43,8 +44,12 @@ template <typename T> class CQueue  {
    Location<T>** _data;
    void resize() {
       const int newSize = _mxs << 1;
-      Location<T>* nl = new Location<T>[_mxs];
-      Location<T>** nd = new Location<T>*[newSize];
+      // all the memory first: if there is none, the queue is as before
+      std::unique_ptr<Location<T>[]> hl(new Location<T>[_mxs]);
+      std::unique_ptr<Location<T>*[]> hd(new Location<T>*[newSize]);
+      std::unique_ptr<Location<T>*[]> hv(_nbs >= _mxSeg ? new Location<T>*[_mxSeg << 1] : nullptr);
+      Location<T>* nl = hl.release();
+      Location<T>** nd = hd.release();
       int at = 0,cur = _exit;
       do {
          nd[at] = _data[cur];
@@ -59,7 +64,7 @@ template <typename T> class CQueue  {
       }
       delete[]_data;
       if (_nbs >= _mxSeg) {
-         Location<T>** nvl = new Location<T>*[_mxSeg << 1];
+         Location<T>** nvl = hv.release();
          for(int i=0;i < _mxSeg;++i) nvl[i] = _vlocs[i];
          delete[]_vlocs;
          _vlocs = nvl;
-- 
2.43.0


From c1038c06895f91d0a47056e7a61ff38359eff9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:51 +0000
Subject: [PATCH 14/25] fix: displaying a diagram must not fork the caller

---
 src/dd.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 34d2f4c..f2441a6 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -6,6 +6,7 @@
 #include <iomanip>
 #include <limits>
 #include <cstdio>
+#include <cerrno>
 #include <unistd.h>
 #include "heap.hpp"
 #include "queue.hpp"
@@ -174,23 +175,39 @@ void AbstractDD::display()
 {
    const std::string gLabel = _strat->getName();
    char buf[256] = "/tmp/dotfile-XXXXXXX";
-   mkstemp(buf);
+   int fd = mkstemp(buf);
+   if (fd < 0) {
+      perror("display: mkstemp");
+      return;
+   }
+   close(fd);
    std::ofstream out(buf);
    std::string base = buf;
    base = base + ".pdf";
    saveGraph(out,gLabel);
    out.close();
+   if (!out) {
+      perror("display: writing the graph");
+      return;
+   }
    pid_t child = fork();
    if (child == 0) {
-      int st = execlp("dot","dot","-Tpdf","-O",buf,NULL);
-      printf("execl status: %d\n",st);
+      execlp("dot","dot","-Tpdf","-O",buf,NULL);
+      perror("display: dot");
+      _exit(127); // the child must never return to the caller
+   }
+   if (child < 0) {
+      perror("display: fork");
+      return;
    }
    int st = 0;
-   waitpid(child,&st,0);
+   while (waitpid(child,&st,0) < 0 && errno == EINTR)
+      ;
    child = fork();
    if (child == 0) {
       execlp("open","open",base.c_str(),NULL);
-      printf("execl2 status: %d\n",st);
+      perror("display: open");
+      _exit(127);
    }
    //unlink(buf);
 }
-- 
2.43.0


From 63ab6d83eac52fdc718ff57d12e8e379c502c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 15/25] fix: a frontier node may not stand for deeper ones

With a dominance test that also compares states of different layers (as in
the knapsack model), a new subproblem could remove, or a queued one could
keep out, states below it. When the dominating node was explored later, a
state between the two had already been seen and was not queued again, so the
removed completions were never explored and the search returned a value
worse than the optimum. A node now only stands for nodes that are no deeper.
---
 src/search.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 32aea7c..48c11a1 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -153,11 +153,14 @@ void BAndB::search(Bounds& bnds)
                   std::vector<Heap<QNode,decltype(hOrder)>::LocType*> allLocs(pqSz);
                   for(unsigned k = 0;k < pqSz;k++) {
                      auto bbn = pq[k];
-                     bool isObjDom   = relaxed->isBetterEQ(bbn->value().node->getBound(),n->getBound());
+                     const auto qDepth = bbn->value().node->depth();
+                     // a node may only stand for nodes that are no deeper: its own exploration can run into
+                     // already seen ancestors of a deeper node, and would then never reach what it replaced.
+                     bool isObjDom   = qDepth >= n->depth() && relaxed->isBetterEQ(bbn->value().node->getBound(),n->getBound());
                      newGuyDominated = isObjDom && relaxed->dominates(bbn->value().node,n);
                      if (newGuyDominated)
                         break;                     
-                     bool objDom   = relaxed->isBetterEQ(n->getBound(),bbn->value().node->getBound());
+                     bool objDom   = n->depth() >= qDepth && relaxed->isBetterEQ(n->getBound(),bbn->value().node->getBound());
                      bool qnDominated = objDom && relaxed->dominates(n,bbn->value().node);
                      if (qnDominated)
                         allLocs[d++] = bbn;
-- 
2.43.0


From 980c0c7e41b447b5995d1a7dea1b1ed2caf597e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:51 +0000
Subject: [PATCH 16/25] fix: a set without words can be copied, iterated and
 inserted into

Inserting into an empty set built from an empty interval, an empty range or
with capacity 0 never ended, and iterating a copy of such a set ran past its
end.
---
 src/util.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1a7341e..82b9d6f 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -433,7 +433,7 @@ public:
    GNSet(const GNSet& s) {
       _mxw = s._mxw;
       _nbp = s._nbp;
-      _t   = new unsigned long long[_mxw];
+      _t   = _mxw ? new unsigned long long[_mxw] : nullptr;
       for(int i=0;i<_mxw;i++)
          _t[i] = s._t[i];
    }
@@ -456,9 +456,8 @@ public:
          _nbp = 0;
          _t = nullptr;
       } else {
-         _mxw = ((ub & 0x3f)? 1 : 0) + (ub >> 6); // if remainder 1 : 0 + division
+         _mxw = std::max(1,((ub & 0x3f)? 1 : 0) + (ub >> 6)); // if remainder 1 : 0 + division
          _nbp = _mxw << 6;
-         assert(_mxw != 0);
          _t = new unsigned long long[_mxw];
          for(int i=0;i<_mxw;i++) _t[i]=0;
          for(auto i : s)
@@ -546,6 +545,7 @@ public:
       const int i = p >> 6;
       const auto old = _mxw;
       if (i >= _mxw) {
+         if (_mxw == 0) _mxw = 1;
          while(i >= _mxw) _mxw <<= 1;
          auto np = new unsigned long long[_mxw];
          for(int i=0;i < old;i++)
@@ -642,7 +642,7 @@ public:
       unsigned long long    _cw; // current word
       iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
-         while (_cw == 0 && _t && ++_cwi < _nbw) 
+         while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
       iterator(unsigned long long* t,unsigned short nbw)
-- 
2.43.0


From 6fe7767d1ad0adc5f21bae87825b31d7c28cb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:51 +0000
Subject: [PATCH 17/25] fix: sets can be assigned after a move and after a
 failed assignment

A moved-from set kept its word count, so that assigning a set of the same
capacity to it wrote through a null pointer; an assignment whose allocation
failed had already released the old words, which were then released again.
---
 src/util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 82b9d6f..6dffb44 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -441,6 +441,7 @@ public:
       _mxw = s._mxw;
       _nbp = s._nbp;
       _t = s._t;
+      s._mxw = s._nbp = 0;
       s._t = nullptr;      
    }
    template <unsigned short nbw> GNSet(const NatSet<nbw>& s) {     
@@ -505,9 +506,10 @@ public:
    }
    GNSet& operator=(const GNSet& s) {
       if (s._mxw != _mxw) {
+         auto nt = s._mxw ? new unsigned long long[s._mxw] : nullptr;
          delete[] _t;
          _mxw = s._mxw;
-         _t = new unsigned long long[_mxw];
+         _t = nt;
       }
       _nbp = s._nbp;      
       for(int i=0;i<_mxw;i++)
@@ -519,6 +521,7 @@ public:
       _mxw = s._mxw;
       _nbp = s._nbp;
       _t = s._t;
+      s._mxw = s._nbp = 0;
       s._t = nullptr;
       return *this;
    }
-- 
2.43.0


From 5aba7260fb9106df3c92136d8073b1c218fa417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:51 +0000
Subject: [PATCH 18/25] fix: arrays can be assigned after a move and survive
 failed allocations

As for sets: a moved-from array kept its size, and an assignment whose
allocation failed had already released the old elements. A constructor whose
elements could not be copied leaked the storage.
---
 src/util.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 6dffb44..595725c 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -922,25 +922,25 @@ public:
          _tab = new T[_mx];
       else _tab = nullptr;
    }
-   FArray(std::size_t isz,const T& value) : _mx(isz) {
-      _tab = new T[_mx];
+   FArray(std::size_t isz,const T& value) : FArray(isz) {
       for(auto i=0u;i < _mx;i++)
          _tab[i] = value;
    }
-   FArray(const FArray& t) : _mx(t._mx) {
-      _tab = new T[_mx];
+   FArray(const FArray& t) : FArray(t._mx) {
       for(auto i=0u;i < _mx;i++)
          _tab[i] = t._tab[i];
    }
    FArray(FArray&& t) : _tab(t._tab),_mx(t._mx) {
       t._tab = nullptr;
+      t._mx = 0;
    }
    ~FArray() { if (_tab) delete[] _tab;}
    FArray& operator=(const FArray& t) {
       if (_mx != t._mx) {
+         auto nt = t._mx ? new T[t._mx] : nullptr;
          delete []_tab;
          _mx = t._mx;
-         _tab = new T[_mx];
+         _tab = nt;
       }
       for(auto i=0u;i < _mx;i++)
          _tab[i] = t._tab[i];      
@@ -951,6 +951,7 @@ public:
       _mx = a._mx;
       _tab = a._tab;
       a._tab = nullptr;
+      a._mx = 0;
       return *this;
    }
    std::size_t size() const noexcept { return _mx;}
-- 
2.43.0


From e9aa6e6a5b19604ee0591efa68003557f31e99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:50 +0000
Subject: [PATCH 19/25] fix: equal sets hash alike

Two equal sets with different capacities had different hash values, so that a
state containing one was not found in a table holding the other.
---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 595725c..85e133b 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -741,7 +741,9 @@ public:
   }
    std::size_t hash() const noexcept {
       std::size_t hv = 0;
-      for(auto i = 0;i < _mxw;i++)
+      int nbw = _mxw; // words at the end that hold nothing do not count: equal sets must hash alike
+      while (nbw > 0 && _t[nbw-1] == 0) nbw--;
+      for(auto i = 0;i < nbw;i++)
          hv = std::rotl(hv,2) ^ _t[i];
       return hv;
    }   
-- 
2.43.0


From 9f17d8acdd711fa82ec07b6e0cb0acd469cdd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:49 +0000
Subject: [PATCH 20/25] fix: removeAbove stays inside the set

Removing the elements above the last one a set has room for wrote behind its
words.
---
 src/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 85e133b..044b40c 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -612,8 +612,8 @@ public:
    }
    void removeAbove(int p) noexcept {
       int w = ++p >> 6;
-      if (p > _nbp) return;
-      assert(w >= 0 && w < _mxw);
+      if (w >= _mxw) return;
+      assert(w >= 0);
       const int b = p & 63;
       _t[w] = _t[w] & ((1ull << b) - 1);
       w++;
-- 
2.43.0


From e53f0faf5b4f77e9d4a9f7e1123d70133c20480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:49 +0000
Subject: [PATCH 21/25] fix: the reflection of a fixed-size set keeps all its
 elements

64 - {41,64} gave {0}: a mask was shifted by 64, and words were cleared before
they had been read when moving by two words or more.
---
 src/util.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 044b40c..a681db6 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -210,7 +210,7 @@ public:
          //std::cout << "MOVE Down=" << x << " lw:" << lw << "\n";
          unsigned long long nt[nbw] = {0}; 
          for(int i=0;i <= std::min(lw,nbw-1);i++) {
-            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (x+1))-1); // get the next block to inject here.
+            auto next =  (i+1==nbw) ? 0 : _t[i+1]; // get the next block to inject here (the shift keeps its x low bits)
             nt[i] = (_t[i] >> x) | (next << (64 - x));
          }
          for(int i=0;i < nbw;i++) _t[i] = nt[i];         
@@ -226,9 +226,8 @@ public:
             assert(lw < nbw); // by definition, it's at most the index of the last word (1 less than size)
             unsigned long long nt[nbw] = {0}; 
             for(int i=0;i <= lw;i++) {
-               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (by+1))-1);
+               auto next = (i+1==nbw) ? 0 : _t[i+1];
                nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
-               for(int j=i;j < i+delta;j++) _t[j] = 0;
             }
             for(int i=0;i < nbw;i++) _t[i] = nt[i];
          } else if (by < 0) {
-- 
2.43.0


From a3e3490c057d6a8feeda8427e2a5a658783436a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:49 +0000
Subject: [PATCH 22/25] fix: iterating a set gives the naturals above 32767 as
 well

---
 src/util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index a681db6..cf41cd7 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -344,7 +344,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const     { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    class citerator { 
@@ -374,7 +374,7 @@ public:
       citerator operator++(int) { citerator retval = *this; ++(*this); return retval;}
       bool operator==(citerator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(citerator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const     { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    iterator begin() const { return iterator(_t,0);}
@@ -672,7 +672,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const     { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class GNSet;
    };
    iterator begin() const { return iterator(_t,_mxw,0);}
-- 
2.43.0


From b80c670d81108f0948e82396326571e54713c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:33 +0000
Subject: [PATCH 23/25] fix: exceptions of the label, merge and sink functions
 reach the caller of a search

---
 src/dd.cpp | 4 ++--
 src/dd.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f2441a6..c8069ee 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -639,7 +639,7 @@ class LQueue {
    }
 public:
    LQueue(Relaxed& dd) : _next(),_rest(),_dd(dd) {}
-   void enQueue(ANode::Ptr n) noexcept {
+   void enQueue(ANode::Ptr n) {
       if (_next.size() == 0)
          _next.push_back(n);
       else {
@@ -673,7 +673,7 @@ public:
    std::size_t size() const noexcept {
       return _next.size() + _rest.size();
    }
-   std::list<ANode::Ptr> pullLayer() noexcept {
+   std::list<ANode::Ptr> pullLayer() {
       std::list<ANode::Ptr> retVal = std::move(_next);
 
       //sort and collapse the layer via merging when the layer is pulled.
diff --git a/src/dd.hpp b/src/dd.hpp
index 71f8559..15b189b 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -146,7 +146,7 @@ class Strategy {
 protected:
    AbstractDD* _dd;
    friend class AbstractDD;
-   auto remainingLabels(ANode::Ptr p) const noexcept { return _dd->getLabels(p);}
+   auto remainingLabels(ANode::Ptr p) const { return _dd->getLabels(p);}
 public:
    Strategy() : _dd(nullptr) {}
    AbstractDD* theDD() const noexcept { return _dd;}
@@ -431,7 +431,7 @@ private:
       auto sp = static_cast<const Node<ST>*>(s.get());
       return Equal{}(fp->get(),sp->get());
    }
-   bool eqSink(ANode::Ptr s) const noexcept {
+   bool eqSink(ANode::Ptr s) const {
       auto sp = static_cast<const Node<ST>*>(s.get());
       return _eqs(sp->get());
    }
-- 
2.43.0


From db261267c8d5b7864b9beb7cebdd5200c1da8fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:17 +0000
Subject: [PATCH 24/25] fix: a vector that was moved from no longer shares its
 storage with the new one

---
 src/vec.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vec.hpp b/src/vec.hpp
index 25efaf2..749185c 100644
--- a/src/vec.hpp
+++ b/src/vec.hpp
@@ -88,7 +88,11 @@ public:
    Vec(Vec&& v)
       : _mem(v._mem),_sz(v._sz),_msz(v._msz),
         _data(std::move(v._data))
-   {}
+   {
+      v._data = nullptr; // as in the move assignment: the two must not share storage
+      v._sz = 0;
+      v._msz = 0;
+   }
    ~Vec() {}
    Vec& operator=(const Vec& v) {
       if (_msz < v._msz) {
-- 
2.43.0


From 9443098b1f3085b685694b1091d5b65703182b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:45 +0000
Subject: [PATCH 25/25] fix: growing sets hold values of a million and more

The word count was an unsigned short and loops over the words counted with
a short: inserting a natural of 2^20 or more (words numbered 16384 and up
after doubling) overflowed the counter, and size(), empty(), iteration and
the set operations crashed or never ended.
---
 src/util.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index cf41cd7..891c1a6 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -417,8 +417,8 @@ public:
  * unionWith / interWith are O(1) (provided a constant number of words, otherwise Theta(n/64)
  */
 class GNSet {
-   unsigned short _mxw;
-   unsigned short _nbp;
+   unsigned _mxw;
+   unsigned _nbp;
    unsigned long long *_t;
 public:
    GNSet(unsigned short nb=64) { // 64 values ... so 0 .. 63 -> 1 word (65 values -> 0..64 -> 2 words)
@@ -524,21 +524,21 @@ public:
       s._t = nullptr;
       return *this;
    }
-   short nbWords() const noexcept { return _mxw;}
+   int nbWords() const noexcept { return _mxw;}
    int largestPossible() const noexcept { return _nbp;}
    void clear() noexcept {
-      for(short i=0;i < _mxw;i++)
+      for(auto i=0u;i < _mxw;i++)
          _t[i] = 0;
    }
    bool empty() const noexcept {
       int ttl = 0;
-      for(short i=0;(ttl==0) && i < _mxw;++i)
+      for(auto i=0u;(ttl==0) && i < _mxw;++i)
          ttl += (_t[i] != 0);
       return ttl==0;
    }
    int size() const noexcept {
       int ttl = 0;
-      for(short i=0;i < _mxw;++i)
+      for(auto i=0u;i < _mxw;++i)
          ttl += __builtin_popcountll(_t[i]);
       return ttl;
    }
@@ -559,7 +559,7 @@ public:
       }
       assert(i>=0 && i < _mxw);
       _t[i] |= (1ull << (p & 63));
-      _nbp = std::max(_nbp,(unsigned short)p);
+      _nbp = std::max(_nbp,(unsigned)p);
       return *this;
    }
    GNSet& remove(int p) noexcept {
@@ -569,7 +569,7 @@ public:
       return *this;
    }
    GNSet& complement() noexcept {
-      for(short i=0;i < _mxw;++i)
+      for(auto i=0u;i < _mxw;++i)
          _t[i] = ~_t[i];
       return *this;
    }
@@ -580,7 +580,7 @@ public:
       return (_t[at] &  (1ull << (p & 63))) != 0;
    }
    GNSet& unionWith(const GNSet& ps) noexcept {
-      short i;
+      unsigned i;
       for(i=0;i < std::min(_mxw,ps._mxw);i++)
          _t[i] |= ps._t[i];
       if (_mxw < ps._mxw) {
@@ -597,7 +597,7 @@ public:
       return *this;
    }
    GNSet& interWith(const GNSet& ps) noexcept {
-      short i;
+      unsigned i;
       for(i=0;i < std::min(_mxw,ps._mxw);i++)
          _t[i] &= ps._t[i];
       while(i < _mxw)
@@ -605,7 +605,7 @@ public:
       return  *this;
    }
    GNSet& diffWith(const GNSet& ps) noexcept {
-      for(short i=0;i < std::min(_mxw,ps._mxw);i++)
+      for(auto i=0u;i < std::min(_mxw,ps._mxw);i++)
          _t[i] = _t[i] & ~ps._t[i];
       return *this;
    }
@@ -639,15 +639,15 @@ public:
    }
    class iterator { 
       unsigned long long*    _t;
-      const unsigned short _nbw;
-      unsigned short       _cwi;    // current word index
+      const unsigned       _nbw;
+      unsigned             _cwi;    // current word index
       unsigned long long    _cw; // current word
-      iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
+      iterator(unsigned long long* t,unsigned nbw,unsigned at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
          while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
-      iterator(unsigned long long* t,unsigned short nbw)
+      iterator(unsigned long long* t,unsigned nbw)
          : _t(t),_nbw(nbw),_cwi(nbw),_cw(0) {} // end constructor
       iterator& operator=(const iterator i) {
          _t = i._t;
-- 
2.43.0

