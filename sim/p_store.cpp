// The memory pool and the containers that live on it: C13, C14.
#include "models.hpp"
#include "queue.hpp"
#include "hashtable.hpp"
#include "heap.hpp"
#include "lighthash.hpp"
#include "pool.hpp"
#include "store.hpp"
#include "vec.hpp"
#include <algorithm>
#include <cstring>
#include <deque>
#include <limits>
#include <new>
using namespace sim;

// ---------------------------------------------------------------------- C13
namespace {
struct Blk { char* p; size_t sz; uint32_t id; };
inline char pat(uint32_t id,size_t i) { return (char)(id*131u + (uint32_t)i*7u + (id >> 8)); }
void fillBlk(const Blk& b) { for(size_t i=0;i<b.sz;i++) b.p[i] = pat(b.id,i); }
void checkBlk(const Blk& b,const char* when) {
   for(size_t i=0;i<b.sz;i++)
      if (b.p[i] != pat(b.id,i)) fail("contents-changed",fmt("block %u of %zu bytes changed at offset %zu %s",b.id,b.sz,i,when));
}
size_t drawSize(size_t seg) {
   switch(draw(8)) {
      case 0: return 1 + draw(16);
      case 1: return 16*(1 + draw(8));
      case 2: return 1 + draw((uint32_t)std::max<size_t>(seg,1));
      case 3: return std::max<size_t>(1,seg - std::min<size_t>(seg-1,draw(20)));
      case 4: return seg + draw(40);
      case 5: return seg*2 + draw(100);
      case 6: return 1 + draw(200);
      default: return 8;
   }
}
struct PoolSim {
   Pool* p; size_t seg;
   std::vector<Blk> live; uint32_t nid = 1;
   struct Mk { PoolMark m; size_t n; };
   std::vector<Mk> marks;
   void add(char* q,size_t sz) {
      if (((uintptr_t)q & 15) != 0) fail("misaligned",fmt("a block of %zu bytes is at an address that is not a multiple of 16",sz));
      if (!isLiveRange(q,sz)) fail("outside-pool",fmt("a block of %zu bytes is not inside memory the pool owns",sz));
      for(auto& b : live)
         if (q < b.p + b.sz && b.p < q + sz) fail("overlap",fmt("a new block of %zu bytes overlaps block %u of %zu bytes that is still in use",sz,b.id,b.sz));
      OffArena o;
      live.push_back({q,sz,nid++});
      fillBlk(live.back());
   }
   void all(const char* when) { for(auto& b : live) checkBlk(b,when); }
   void cut(size_t n) { live.resize(n); while(!marks.empty() && marks.back().n > n) marks.pop_back(); }
};
}
static void c13run(bool faults) {
   uint64_t lb0 = liveBlocks(), by0 = liveBytes();
   size_t seg = oneOf(std::vector<size_t>{64,16,100,256,1000,4096,1u<<22});
   std::unique_ptr<Pool> own;
   if (faults && chance(1,6)) {
      int at = 1 + (int)draw(4);
      armAllocFailure(at);
      try { own = std::make_unique<Pool>(seg); } catch(std::bad_alloc&) {}
      bool f = allocFailureFired(); disarmAllocFailure();
      if (f) { count("fault.alloc-failure"); if (own) fail("lost-failure","the pool was built although an allocation failed");
               if (liveBlocks() != lb0) fail("leak",fmt("%lu blocks are left after a pool could not be built",(unsigned long)(liveBlocks()-lb0))); }
   }
   if (!own) own = std::make_unique<Pool>(seg);
   PoolSim S; S.p = own.get(); S.seg = seg;
   note(fmt("pool with segments of %zu bytes",seg));
   int n = 1 + (int)draw((uint32_t)oneOf(std::vector<int>{30,6,120,400}));
   size_t maxTotal = 6u<<20, total = 0; int cuts = 0, fired = 0;
   for(int k=0;k<n;k++) {
      int op = (int)draw(16);
      if (op < 8) {                                            // allocate
         size_t sz = drawSize(seg); if (seg > 1000000) sz = 1 + draw(300000);
         if (total + sz > maxTotal) continue;
         bool arm = faults && chance(1,3); int at = arm ? 1 + (int)draw(3) : 0;
         uint64_t lb = liveBlocks();
         char* q = nullptr; bool threw = false;
         if (arm) armAllocFailure(at);
         try { q = (char*)S.p->allocate(sz); } catch(std::bad_alloc&) { threw = true; }
         bool f = arm && allocFailureFired(); disarmAllocFailure();
         if (f) { count("fault.alloc-failure"); fired++; }
         note(fmt("allocate %zu%s%s",sz,f ? ", memory runs out" : "",threw ? ": bad_alloc" : ""));
         if (threw) {
            if (!f) fail("spurious-bad-alloc",fmt("allocating %zu bytes failed although memory was available",sz));
            S.all("after a failed allocation");
            count("outcome.exception");
            // as usable as before: what was asked for is granted now
            try { q = (char*)S.p->allocate(sz); } catch(std::bad_alloc&) { fail("unusable","the pool cannot allocate after a failure although memory is available again"); }
            if (liveBlocks() > lb + 3) fail("leak","a failed allocation left memory behind");
         }
         S.add(q,sz); total += sz; mark(sz);
      } else if (op == 8 && faults) {                          // a request nobody can serve
         size_t sz = (size_t)1 << (40 + draw(22));
         note(fmt("allocate 2^%d",63 - __builtin_clzl(sz)));
         bool threw = false;
         try { (void)S.p->allocate(sz); } catch(std::bad_alloc&) { threw = true; }
         if (!threw) fail("lost-failure","an allocation no memory can serve was granted");
         count("fault.huge-request"); fired++;
         S.all("after a refused request");
      } else if (op == 9 || op == 10) {                        // mark
         OffArena o; S.marks.push_back({S.p->mark(),S.live.size()}); note("mark");
      } else if (op == 11 || op == 12) {                       // cut back to a mark
         if (S.marks.empty()) continue;
         size_t i = draw((uint32_t)S.marks.size()); bool keepMark = chance(1,2);
         auto m = S.marks[i];
         std::vector<size_t> redo; for(size_t j=m.n;j<S.live.size();j++) redo.push_back(S.live[j].sz);
         S.p->clear(m.m); cuts++; count("cuts");
         note(fmt("cut back to mark %zu",i));
         { OffArena o; S.cut(m.n); while(S.marks.size() > (keepMark ? i+1 : i)) S.marks.pop_back(); }
         S.all("after cutting back to a later mark");
         if (chance(1,2)) {                                    // the same requests again: no new memory
            uint64_t lb = liveBlocks();
            for(size_t sz : redo) { char* q = (char*)S.p->allocate(sz); S.add(q,sz); }
            if (liveBlocks() > lb) fail("no-reuse",fmt("repeating the %zu requests that were cut took new memory",redo.size()));
            count("reuse-checks"); note(fmt("%zu requests repeated",redo.size()));
         }
      } else if (op == 13) {                                   // clear
         std::vector<size_t> redo; for(auto& b : S.live) redo.push_back(b.sz);
         S.p->clear(); cuts++; note("clear");
         { OffArena o; S.cut(0); S.marks.clear(); }
         if (chance(1,2) && !redo.empty()) {
            uint64_t lb = liveBlocks();
            for(size_t sz : redo) { char* q = (char*)S.p->allocate(sz); S.add(q,sz); }
            if (liveBlocks() > lb) fail("no-reuse",fmt("repeating the %zu requests after clear took new memory",redo.size()));
            count("reuse-checks");
         }
      } else if (op == 14) {                                   // touch: rewrite a block through its pointer
         if (S.live.empty()) continue;
         auto& b = S.live[draw((uint32_t)S.live.size())];
         b.id = S.nid++; fillBlk(b);
      } else S.all("while other blocks were allocated");
   }
   S.all("at the end");
   if (S.live.size() > 2 && (cuts || fired || total > seg)) nontrivial();
   mark(S.live.size()); mark((uint64_t)cuts);
   own.reset();
   { OffArena o; S.live.clear(); S.marks.clear(); S.live.shrink_to_fit(); S.marks.shrink_to_fit(); }
   if (liveBlocks() != lb0 || liveBytes() != by0) fail("leak",fmt("destroying the pool left %lu blocks, %lu bytes",(unsigned long)(liveBlocks()-lb0),(unsigned long)(liveBytes()-by0)));
}
static void c13() {
   drawHeap();
   bool faults = chance(2,3);
   c13run(faults);
}
static Reg r13("C13",c13);

// ---------------------------------------------------------------------- C14
namespace {
struct Cell { int v; Cell() : v(0) {} Cell(int x) : v(x) {} bool operator==(const Cell&) const = default; };
struct Key { int v; bool operator==(const Key&) const = default; };
struct KeyHash { size_t operator()(const Key& k) const noexcept { return squash((uint64_t)k.v); } };
struct Nst { int v; bool operator==(const Nst&) const = default; friend std::ostream& operator<<(std::ostream& os,const Nst& s) { return os << s.v; } };
}
template <> struct std::hash<Nst> { size_t operator()(const Nst& k) const noexcept { return squash((uint64_t)k.v); } };
namespace {
typedef Node<Nst> NN;

struct Box {                           // a container together with its textbook model
   const char* name = "?";
   virtual ~Box() {}
   virtual void step() = 0;            // one random operation, compared with the model; may throw bad_alloc
   virtual void audit() = 0;           // full comparison, no allocation from the pool
   [[noreturn]] void bad(const std::string& what) { fail(std::string("wrong:") + name,std::string(name) + ": " + what); }
};
#define OFF OffArena _off

// Emptying a container once, or so often that a narrow generation counter would come round again.
template <class F> void clears(F f) {
   long n = 1;
   if (chance(1,40)) { n = oneOf(std::vector<long>{255,256,257,254,511}); if (chance(1,40)) n = oneOf(std::vector<long>{65535,65536,65534}); count("probe.many-clears"); }
   while(n-- > 0) f();
}

struct HeapBox : Box {
   struct Ent { int key; int id; int operator--(int) { return key--; } bool operator==(const Ent& o) const { return id == o.id; } };
   typedef Heap<Ent> H; H h;
   std::map<int,int> in;               // id -> key
   std::map<int,const H::Location*> loc;
   int nid = 1; bool minOrder; int range;
   static bool lessE(const Ent& a,const Ent& b) { return a.key < b.key; }
   static bool greaterE(const Ent& a,const Ent& b) { return a.key > b.key; }
   HeapBox(Pool* p,int cap,bool mn,int rg) : h(p,cap,mn ? lessE : greaterE),minOrder(mn),range(rg) { name = "priority queue"; }
   int best() { int b = in.begin()->second; for(auto& [i,k] : in) if (minOrder ? k < b : k > b) b = k; return b; }
   void took(Ent e,int want) {
      OFF; auto i = in.find(e.id);
      if (i == in.end()) bad(fmt("yielded element %d which is not in it",e.id));
      if (i->second != e.key) bad(fmt("element %d came out with key %d, it went in with %d",e.id,e.key,i->second));
      if (want < 0 ? e.key != best() : e.id != want) bad(want < 0 ? fmt("yielded key %d, the best one present is %d",e.key,best()) : fmt("removing element %d removed %d",want,e.id));
      in.erase(i); loc.erase(e.id);
   }
   void put() { int k = (int)draw((uint32_t)range); int id = nid++; auto l = h.insertHeap({k,id}); OFF; in[id] = k; loc[id] = l; }
   void step() override {
      int op = (int)draw(12);
      if (op < 5) put();
      else if (op < 8) { if (!in.empty()) took(h.extractMax(),-1); }
      else if (op == 8) {              // by handle
         if (in.empty()) return;
         auto i = in.begin(); std::advance(i,(long)draw((uint32_t)in.size())); int id = i->first;
         took(h.remove(const_cast<H::Location*>(loc[id])),id);
      } else if (op == 9) {            // decrease by handle (towards the root of a min queue)
         if (in.empty() || !minOrder) return;
         auto i = in.begin(); std::advance(i,(long)draw((uint32_t)in.size())); int id = i->first;
         h.decrease(const_cast<H::Location*>(loc[id])); i->second--;
      } else if (op == 10) {           // bulk
         int n = (int)draw(8);
         for(int j=0;j<n;j++) { int k = (int)draw((uint32_t)range); int id = nid++; auto l = h.insert({k,id}); OFF; in[id] = k; loc[id] = l; }
         h.buildHeap();
      } else if (chance(1,4)) { h.clear(); OFF; in.clear(); loc.clear(); }
      else if (chance(1,40)) { int n = 200 + (int)draw(2000); count("probe.long-burst"); while(n-- > 0) put(); }
      else { int n = (int)draw(6); while(n-- > 0 && !in.empty()) took(h.extractMax(),-1); }
   }
   void audit() override {
      if (h.size() != in.size() || h.empty() != in.empty()) bad(fmt("size is %u, expected %zu",h.size(),in.size()));
      for(auto& [id,l] : loc) { auto e = l->value(); if (e.id != id || e.key != in[id]) bad(fmt("the handle of element %d (key %d) refers to element %d (key %d)",id,in[id],e.id,e.key)); }
      OFF; std::vector<int> a; for(unsigned i=0;i<h.size();i++) a.push_back(h[(int)i]->value().id);
      std::sort(a.begin(),a.end()); size_t i = 0;
      for(auto& [id,k] : in) if (a[i++] != id) bad("its elements are not those that were put in");
   }
};

struct QueueBox : Box {
   CQueue<int> q; int nv = 1;
   struct It { int v; int grp; Location<int>* l; };
   std::deque<It> m; int grp = 0;      // elements of one group may come out in any order (a retraction may reorder what is queued)
   QueueBox(int cap) : q(cap) { name = "queue"; }
   void out(int v) {
      OFF;
      if (m.empty()) bad("yielded an element although empty");
      int g = m.front().grp;
      for(auto i = m.begin();i != m.end() && i->grp == g;++i) if (i->v == v) { m.erase(i); return; }
      bad(fmt("yielded %d, expected %d",v,m.front().v));
   }
   void step() override {
      int op = (int)draw(16);
      if (op < 8) { int v = nv++; auto l = q.enQueue(v); OFF; ++grp; m.push_back({v,grp,l}); }
      else if (op < 13) { if (m.empty()) { if (q.deQueue() != 0) bad("an empty queue yielded something"); } else { int pk = q.peek(); int v = q.deQueue(); if (pk != v) bad(fmt("peek said %d, dequeue gave %d",pk,v)); out(v); } }
      else if (op == 13) { int n = (int)draw(40); while(n-- > 0 && !m.empty()) out(q.deQueue()); }
      else if (op == 14) { int n = (int)draw(40); if (chance(1,60)) { n = 200 + (int)draw(3000); count("probe.long-burst"); } while(n-- > 0) { int v = nv++; auto l = q.enQueue(v); OFF; ++grp; m.push_back({v,grp,l}); } }
      else if (chance(1,3)) { q.clear(); OFF; m.clear(); }
      else if (!m.empty() && retr) {
         size_t i = draw((uint32_t)m.size()); int v = m[i].v;
         if (chance(1,2)) q.retract(m[i].l); else if (!q.retract(v)) bad(fmt("could not retract %d",v));
         OFF; m.erase(m.begin() + (long)i); for(auto& e : m) e.grp = grp; ++grp;
      }
   }
   bool retr = false;
   void audit() override {
      if (q.size() != (int)m.size() || q.empty() != m.empty()) bad(fmt("size is %d, expected %zu",q.size(),m.size()));
      OFF; std::vector<int> a,b; q.doOnAll([&](Location<int>* l) { a.push_back(l->value()); });
      for(auto& e : m) b.push_back(e.v);
      if (retr) { std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); }
      if (a != b) bad(fmt("holds %s, expected %s",show(a).c_str(),show(b).c_str()));
      int want = a.empty() || chance(1,4) ? nv + 7 : a[draw((uint32_t)a.size())], seen = 0, n = 0;
      int got = q.foldl([&](int acc,int x) { n++; if (n > (int)m.size()) bad("a search through the queue does not end"); if (x == want) seen++; return x == want ? x : acc; },0);
      if (got != (want <= nv ? want : 0)) bad(fmt("searching for %d finds %d",want,got));
   }
};

struct VecBox : Box {
   typedef Vec<int,unsigned> V; Pool* p; std::unique_ptr<V> v,w; std::vector<int> m,mw; int nv = 1;   // w: a second vector, copied from and to the first
   VecBox(Pool* pp,unsigned cap) : p(pp) { name = "vector"; v = std::make_unique<V>(p,cap); w = std::make_unique<V>(p,cap/2); }
   void step() override {
      if (chance(1,6)) { std::swap(v,w); m.swap(mw); return; }
      if (chance(1,6)) { *v = *w; OFF; m = std::vector<int>(mw); return; }
      int op = (int)draw(14);
      if (op < 6) { int n = 1; if (chance(1,600)) { n = 200 + (int)draw(1500); count("probe.long-burst"); } while(n-- > 0) { int x = nv++; auto at = v->push_back(x); if (at != m.size()) bad(fmt("push_back said position %u, expected %zu",at,m.size())); OFF; m.push_back(x); } }
      else if (op == 6) { if (!m.empty()) { int x = v->pop_back(); if (x != m.back()) bad(fmt("pop_back gave %d, expected %d",x,m.back())); m.pop_back(); } }
      else if (op == 7) {              // assignment at an index: the size becomes index + 1
         unsigned i = draw((uint32_t)m.size()+1); int x = nv++;
         (*v)[i] = x; OFF; m.resize(i+1); m[i] = x;
      } else if (op == 8) {            // remove by position: the last element takes the place
         if (m.empty()) return;
         unsigned i = draw((uint32_t)m.size()); int moved = -1; bool last = i+1 == m.size();
         v->remove(i,[&](int x) { moved = x; });
         if (!last && moved != m.back()) bad(fmt("remove moved %d, expected %d",moved,m.back()));
         m[i] = m.back(); m.pop_back();
      } else if (op == 9) {            // a copy on the same pool
         auto c = std::make_unique<V>(*v); if (chance(1,2)) { c->push_back(-5); c->pop_back(); } v = std::move(c);
      } else if (op == 10) { auto c = std::make_unique<V>(p,*v); v = std::move(c); }
      else if (op == 11) {             // assignment, both ways
         V t(p,(unsigned)draw(5)); int k = (int)draw(6);
         for(int i=0;i<k;i++) t.push_back(-i-1);
         t = *v; *v = t;
      } else if (op == 12 && chance(1,2)) { // moved away; what was moved from is used again as the second one
         std::unique_ptr<V> c;
         if (chance(1,2)) c = std::make_unique<V>(std::move(*v));
         else { c = std::make_unique<V>(p,(unsigned)draw(4)); *c = std::move(*v); }
         w = std::move(v); v = std::move(c); w->clear(); mw.clear();
      } else if (op == 12) { auto c = std::make_unique<V>(p,(unsigned)draw(4)); *c = std::move(*v); v = std::move(c); }
      else if (chance(1,3)) { v->clear(); m.clear(); }
      else if (!m.empty()) { unsigned i = draw((uint32_t)m.size()); int x = nv++; v->at(i,x); m[i] = x; }
   }
   void audit() override {
      if (v->size() != m.size()) bad(fmt("size is %u, expected %zu",v->size(),m.size()));
      size_t i = 0; for(int x : *v) { if (i >= m.size() || x != m[i]) bad(fmt("element %zu is %d",i,x)); i++; }
      if (i != m.size()) bad("iteration ends early");
      const V& cv = *v;
      for(size_t j=0;j<m.size();j++) if (cv[(unsigned)j] != m[j] || cv.get((unsigned)j) != m[j]) bad(fmt("element %zu is %d, expected %d",j,cv[(unsigned)j],m[j]));
      for(auto r = v->rbegin();r != v->rend();++r) { --i; if (*r != m[i]) bad("reverse iteration differs"); }
      if (w->size() != mw.size()) bad(fmt("size of the other one is %u, expected %zu",w->size(),mw.size()));
      i = 0; for(int x : *w) { if (i >= mw.size() || x != mw[i]) bad(fmt("element %zu of the other one is %d",i,x)); i++; }
   }
};

struct TableBox : Box {
   typedef Hashtable<Key,int,KeyHash> HT; HT t; std::map<int,int> m; int range; int nv = 1;
   TableBox(Pool* p,size_t cap,int rg) : t(p,cap),range(rg) { name = "hash table"; }
   void step() override {
      int op = (int)draw(12); int k = (int)draw((uint32_t)range);
      if (range == 2000 && chance(1,8)) { for(int n = 200 + (int)draw(800);n > 0;n--) { int x = nv++; k = (k + 7) % range; t.insert({k},x); OFF; m[k] = x; } count("probe.long-burst"); return; }
      if (op < 4) { int x = nv++; t.insert({k},x); OFF; m[k] = x; }
      else if (op < 6) { if (m.count(k)) return; int x = nv++; t.safeInsert({k},x); OFF; m[k] = x; }
      else if (op < 9) { int y = -1; auto l = t.getLoc({k},y); if ((bool)l != (m.count(k) > 0)) bad(fmt("key %d is %sfound",k,(bool)l ? "" : "not ")); if (l) { if (y != m[k]) bad(fmt("key %d gives %d, expected %d",k,y,m[k])); } else { int x = nv++; t.safeInsertAt(l,{k},x); OFF; m[k] = x; } }
      else if (op < 11) { int y = -1; bool f = t.get({k},y); if (f != (m.count(k) > 0) || (f && y != m[k])) bad(fmt("key %d: found %d value %d",k,(int)f,y)); }
      else if (chance(1,2)) { clears([&] { t.clear(); }); OFF; m.clear(); }
   }
   void audit() override {
      if (t.size() != m.size()) bad(fmt("size is %u, expected %zu",t.size(),m.size()));
      for(int k=0;k<range;k++) { int y = -1; bool f = t.get({k},y); auto i = m.find(k); if (f != (i != m.end()) || (f && y != i->second)) bad(fmt("key %d: found %d value %d",k,(int)f,y)); }
      OFF; std::map<int,int> a; size_t n = 0; t.doOnAll([&](const Key& k,int x) { a[k.v] = x; n++; });
      if (a != m || n != m.size()) bad("a sweep over it gives other pairs than those inserted");
   }
};

struct NodeSource {                    // nodes on the shared pool
   Pool* p; unsigned id = 0; NodeSource(Pool* q) : p(q) {}
   NN* make(int v) { return new (p) NN(p,Nst{v},id++,true); }
};

struct LTableBox : Box {
   typedef LHashtable<Nst> HT; HT t; std::map<int,NN*> m; std::vector<NN*> all; int range; NodeSource& src;
   LTableBox(Pool* p,size_t cap,int rg,NodeSource& s) : t(p,cap),range(rg),src(s) { name = "state table"; }
   void step() override {
      int op = (int)draw(10); int k = (int)draw((uint32_t)range);
      if (range == 2000 && chance(1,8)) { for(int n = 200 + (int)draw(800);n > 0;n--) { k = (k + 7) % range; NN* y = nullptr; auto l = t.getLoc({k},y); if (l) continue; NN* x = src.make(k); t.safeInsertAt(l,x); OFF; m[k] = x; all.push_back(x); } count("probe.long-burst"); return; }
      if (op < 6) { NN* y = nullptr; auto l = t.getLoc({k},y); if ((bool)l != (m.count(k) > 0)) bad(fmt("state %d is %sfound",k,(bool)l ? "" : "not ")); if (l) { if (y != m[k]) bad(fmt("state %d gives another node",k)); } else { NN* x = src.make(k); t.safeInsertAt(l,x); OFF; m[k] = x; all.push_back(x); } }
      else if (op < 8) { NN* y = nullptr; auto l = t.getLoc({k},y); if (!l) { NN* x = src.make(k); t.rawInsertAt(l,x); OFF; m[k] = x; all.push_back(x); } }
      else if (op == 8 && chance(1,2)) { clears([&] { t.clear(); }); OFF; m.clear(); all.clear(); }
   }
   void audit() override {
      if (t.size() != all.size()) bad(fmt("size is %u, expected %zu",t.size(),all.size()));
      for(int k=0;k<range;k++) { NN* y = nullptr; auto l = t.getLoc({k},y); auto i = m.find(k); if ((bool)l != (i != m.end()) || ((bool)l && y != i->second)) bad(fmt("state %d: found %d",k,(int)(bool)l)); if (l && y->get().v != k) bad("a state changed inside its node"); }
      OFF; std::vector<NN*> a; t.doOnAll([&](NN* n) { a.push_back(n); }); auto b = all; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end());
      if (a != b) bad("a sweep over it gives other nodes than those inserted");
   }
};

struct ArrBox : Box {                  // layers of a diagram
   NDArray a; std::vector<NN*> m; NodeSource& src; bool holes = false; int dropped = 0;
   ArrBox(size_t cap,NodeSource& s) : a(cap),src(s) { name = "node array"; }
   void step() override {
      int op = (int)draw(16);
      if (op < 7) { int n = 1; if (chance(1,600)) { n = 100 + (int)draw(500); count("probe.long-burst"); } while(n-- > 0) { NN* x = src.make((int)draw(20)); a.push_back(x); OFF; m.push_back(x); } }
      else if (op < 9) { if (m.empty()) return; if (a.front() != ANode::Ptr(m.front())) bad("front is not the first element"); a.pop_front(); m.erase(m.begin()); dropped++; }
      else if (op == 9) { if (!dropped || m.empty()) return; NN* x = src.make((int)draw(20)); auto f = a.front(); (void)f; a.push_front(x); OFF; m.insert(m.begin(),x); dropped--; }
      else if (op == 10) {             // erase while iterating
         bool all = chance(1,4); uint32_t bits = draw(1u<<16); size_t i = 0; std::vector<NN*> keep;
         for(auto it = a.begin();it != a.end();) {
            if (i >= m.size() || *it != ANode::Ptr(m[i])) bad("iteration differs before an erase");
            if (all || (bits >> (i%16) & 1)) { it = a.erase(it); holes = true; } else { OFF; keep.push_back(m[i]); ++it; }
            i++;
         }
         if (i != m.size()) bad("iteration with erase ends early");
         OFF; m = keep;
      } else if (op == 11) {           // erase through the iterator
         if (m.empty()) return; size_t j = draw((uint32_t)m.size()); auto it = a.begin(); for(size_t i=0;i<j;i++) ++it; it.erase(); holes = true; OFF; m.erase(m.begin()+(long)j);
      } else if (op == 12) {           // keep a prefix (a layer cut to a width)
         if (holes || dropped || m.empty()) return; size_t j = draw((uint32_t)m.size()+1); a.eraseSuffix(a.at(j)); m.resize(j);
      } else if (op == 13) {
         if (holes || dropped) return;
         a.sort([](ANode::Ptr x,ANode::Ptr y) { return x->getId() % 7 < y->getId() % 7; });
         OFF; std::stable_sort(m.begin(),m.end(),[](NN* x,NN* y) { return x->getId() % 7 < y->getId() % 7; });
         std::vector<unsigned> k1,k2; for(auto n : a) k1.push_back(n->getId() % 7); for(auto n : m) k2.push_back(n->getId() % 7);
         if (k1 != k2) bad("not sorted");
         std::vector<NN*> g; for(auto n : a) g.push_back(static_cast<NN*>(n.get())); auto x = g,y = m; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end());
         if (x != y) bad("sorting changed the elements");
         m = g;
      } else if (op == 14 && chance(1,2)) { a.clear(); m.clear(); holes = false; dropped = 0; }
   }
   void audit() override {
      if (a.size() != m.size()) bad(fmt("size is %zu, expected %zu",a.size(),m.size()));
      size_t i = 0; for(auto n : a) { if (i >= m.size() || n != ANode::Ptr(m[i])) bad(fmt("element %zu differs",i)); i++; }
      if (i != m.size()) bad("iteration ends early");
      if (!m.empty()) { if (a.front() != ANode::Ptr(m.front())) bad("front is not the first element"); auto it = a.end(); auto b = a.begin(); while(i > 0) { --it; --i; if (*it != ANode::Ptr(m[i])) bad("backward iteration differs"); } if (!(it == b)) bad("backward iteration does not reach the beginning"); }
      if (!holes && !dropped) for(size_t j=0;j<m.size();j++) if (a[j] != ANode::Ptr(m[j]) || *a.at(j) != ANode::Ptr(m[j])) bad(fmt("element %zu differs",j));
      if (a.size() != m.size()) bad(fmt("after iterating the size is %zu, expected %zu",a.size(),m.size()));
   }
};

struct ListBox : Box {
   ANList l; std::vector<NN*> m; NodeSource& src; std::vector<NN*> spare;
   ListBox(NodeSource& s) : src(s) { name = "node list"; }
   void step() override {
      int op = (int)draw(12);
      if (op < 6) { NN* x; if (!spare.empty() && chance(1,2)) { x = spare.back(); OFF; spare.pop_back(); } else x = src.make(1); l.push_back(x); OFF; m.push_back(x); }
      else if (op < 9) { if (m.empty()) return; size_t j = draw((uint32_t)m.size()); l.remove(m[j]); OFF; spare.push_back(m[j]); m.erase(m.begin()+(long)j); }
      else if (op == 9) { if (m.empty()) return; l.pop_back(); OFF; spare.push_back(m.back()); m.pop_back(); }
      else if (op == 10 && chance(1,4)) { l.clear(); m.clear(); }
   }
   void audit() override {
      if (l.size() != m.size()) bad(fmt("size is %zu, expected %zu",l.size(),m.size()));
      size_t i = 0; for(auto n : l) { if (i >= m.size() || n != ANode::Ptr(m[i])) bad(fmt("element %zu differs",i)); i++; }
      if (i != m.size()) bad("iteration ends early");
      if (!m.empty()) { if (l.front() != ANode::Ptr(m.front()) || l.back() != ANode::Ptr(m.back())) bad("front or back differs"); if (!l.confirmMembership(m.back())) bad("an element is denied"); }
      for(auto s : spare) if (l.confirmMembership(s)) bad("a removed element is still in it");
   }
};

struct FreeBox : Box {                 // recycled frontier nodes
   LPool lp; std::vector<NN*> freeN; std::vector<NN*> used; NodeSource& src; unsigned last = 0; bool any = false;
   FreeBox(Pool* p,NodeSource& s) : lp(p),src(s) { name = "node recycler"; }
   void step() override {
      int op = (int)draw(8);
      if (op < 4) {
         ANode::Ptr n = lp.claimNode();
         if (!n) { if (!freeN.empty()) bad("says there is nothing to recycle"); NN* x = src.make((int)draw(50)); OFF; used.push_back(x); }
         else { OFF; auto i = std::find(freeN.begin(),freeN.end(),static_cast<NN*>(n.get())); if (i == freeN.end()) bad("handed out a node that is still in use"); used.push_back(*i); freeN.erase(i); }
      } else if (op < 7) { if (used.empty()) return; size_t j = draw((uint32_t)used.size()); lp.release(used[j]); OFF; freeN.push_back(used[j]); used.erase(used.begin()+(long)j); }
      else { unsigned i = lp.grabId(); if (any && i <= last) bad("gave the same identity twice"); last = i; any = true; }
   }
   void audit() override { if (lp.get() != src.p) bad("forgot its pool"); }
};
}

static void c14() {
   drawHeap();
   size_t seg = oneOf(std::vector<size_t>{4096,64,100,512,65536});
   int hm = hashMode; hashMode = (int)draw(4);
   bool faults = chance(1,3), retr = chance(1,4);
   int n = 1 + (int)draw((uint32_t)oneOf(std::vector<int>{60,10,200,600}));
   int nb = 1 + (int)draw(5);
   auto body = [&] {
      Pool pool(seg), other(seg);
      NodeSource src(&pool);
      std::vector<std::unique_ptr<Box>> box;
      for(int i=0;i<nb;i++) {
         size_t cap = oneOf(std::vector<size_t>{1,2,3,4,7,16,33});
         switch(draw(8)) {
            case 0: box.push_back(std::make_unique<HeapBox>(&pool,(int)cap,chance(2,3),(int)oneOf(std::vector<int>{10,2,1000}))); break;
            case 1: { auto q = std::make_unique<QueueBox>((int)cap); q->retr = retr; box.push_back(std::move(q)); break; }
            case 2: box.push_back(std::make_unique<VecBox>(chance(1,4) ? &other : &pool,chance(1,3) ? 0u : (unsigned)cap)); break;
            case 3: box.push_back(std::make_unique<TableBox>(&pool,std::max<size_t>(2,oneOf(std::vector<size_t>{2,10,547,600})),chance(1,30) ? 2000 : (int)oneOf(std::vector<int>{8,3,60}))); break;
            case 4: box.push_back(std::make_unique<LTableBox>(&pool,std::max<size_t>(2,oneOf(std::vector<size_t>{2,10,547})),chance(1,30) ? 2000 : (int)oneOf(std::vector<int>{8,3,60}),src)); break;
            case 5: box.push_back(std::make_unique<ArrBox>(cap,src)); break;
            case 6: box.push_back(std::make_unique<ListBox>(src)); break;
            default: box.push_back(std::make_unique<FreeBox>(&pool,src)); break;
         }
         note(fmt("container %d: %s",i,box.back()->name));
      }
      int faultsLeft = faults ? 1 + (int)draw(4) : 0;
      for(int k=0;k<n;k++) {
         auto& b = *box[draw((uint32_t)box.size())];
         bool arm = faultsLeft > 0 && chance(1,10); bool sticky = arm && chance(1,4);
         if (arm) armAllocFailure(1 + (int)draw(4),sticky);
         bool threw = false;
         try { b.step(); } catch(std::bad_alloc&) { threw = true; }
         bool f = arm && allocFailureFired(); disarmAllocFailure();
         if (f) { count("fault.alloc-failure"); faultsLeft--; }
         if (threw && !f) fail("spurious-bad-alloc",std::string(b.name) + ": an operation ran out of memory although memory was available");
         if (threw) { count("outcome.exception"); note(fmt("step %d: %s ran out of memory",k,b.name)); for(auto& x : box) x->audit(); }
         else if ((k & 7) == 0) b.audit();
         if (k % 50 == 49 && !faults) {        // something temporary on the same pool, cut back afterwards
            PoolMark mk = pool.mark();
            { Vec<int,unsigned> t(&pool); for(int i=0;i<(int)draw(100);i++) t.push_back(i); Heap<int> h(&pool,2,[](const int& a,const int& b2) { return a < b2; }); for(int i=0;i<(int)draw(40);i++) h.insertHeap((int)draw(9)); }
            pool.clear(mk);
            count("cuts");
         }
         mark(mix((uint64_t)k,(uint64_t)b.name[0]));
      }
      for(auto& x : box) x->audit();
      box.clear();
   };
   if (faults) {
      int rc = inChild([&] { uint64_t lb = liveBlocks(); body(); if (liveBlocks() != lb) fail("leak",fmt("%lu blocks are left after all containers and pools are gone",(unsigned long)(liveBlocks()-lb))); });
      if (rc == 1) { count("outcome.fail-stop"); mark(1); }
   } else {
      uint64_t lb = liveBlocks();
      body();
      if (liveBlocks() != lb) fail("leak",fmt("%lu blocks are left after all containers and pools are gone",(unsigned long)(liveBlocks()-lb)));
   }
   hashMode = hm;
   if (n > 20) nontrivial();
   mark((uint64_t)n); mark((uint64_t)nb);
}
static Reg r14("C14",c14);
