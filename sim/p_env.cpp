// Searches and their environment: C09 isolation, C10 reproducibility, C11 lack of memory, C12 conservation.
#include "hist.hpp"
#include <new>
using namespace sim;

struct Outcome { uint64_t trace,ann; double primal; uint64_t calls; };
static bool same(const Outcome& a,const Outcome& b) { return a.trace == b.trace && a.ann == b.ann && dbits(a.primal) == dbits(b.primal) && a.calls == b.calls; }
static std::string show(const Outcome& o) { return fmt("%lu calls (trace %016lx), announcements %016lx, value %g",(unsigned long)o.calls,(unsigned long)o.trace,(unsigned long)o.ann,o.primal); }

struct Job {                 // one user of the library
   const Inst* in; int width; int start; double startV;
   Actor A;
   Outcome run(const std::function<void(Actor&,History&,BAndB&)>& tweak = nullptr) {
      A = Actor();
      Bounds b; History h(in,&b);
      auto dd = in->make(&A,&b);
      if (start) { b.setPrimal(startV); h.base = startV; h.baseSet = true; }
      h.arm();
      BAndB e(dd,width);
      if (tweak) tweak(A,h,e);
      e.search(b);
      return {A.trace,h.hash(),b.getPrimal(),A.calls};
   }
};
static Job drawJob(const Inst* in) {
   Job j; j.in = in; j.width = drawWidth(); j.start = in->feasible && chance(1,4);
   double s = pick(0,6); j.startV = in->maxi ? in->opt - s : in->opt + s;
   return j;
}

// ---------------------------------------------------------------------- C09
static void c09() {
   drawKnobs(); drawHeap(); drawClock(true);
   bool nested = chance(1,3);
   int n = nested ? 2 : 2 + (int)draw(3);
   std::vector<InstP> ins; std::vector<Job> jobs; std::vector<Outcome> solo, got(n);
   for(int i=0;i<n;i++) {
      GenCfg g = drawCfg();
      if (i > 0 && chance(1,4)) { jobs.push_back(jobs[0]); jobs.back().width = drawWidth(); }   // the same model twice
      else { ins.push_back(drawInstance(g)); jobs.push_back(drawJob(ins.back().get())); }
   }
   for(int i=0;i<n;i++) { solo.push_back(jobs[i].run()); note(fmt("search %d alone: %s width %d: %s",i,jobs[i].in->name.c_str(),jobs[i].width,show(solo[i]).c_str())); }
   if (nested) {
      int64_t at = 1 + draw((uint32_t)std::min<uint64_t>(solo[0].calls,2000)); bool inCb = chance(1,3); bool ran = false;
      int via = (int)draw(2);
      auto inner = [&] { if (ran) return; ran = true; NoYield ny; got[1] = jobs[1].run(); count("nested-searches"); };
      got[0] = jobs[0].run([&](Actor& A,History& h,BAndB& e) {
         if (inCb) h.b->onSolution([&](const std::vector<int>&) { inner(); });
         else if (via) e.setTimeLimit([&](double) { if (at > 0 && (at -= 1 + at/4) <= 0) inner(); return false; });
         else A.onCall = [&](int k,uint64_t,int) { if (at > 0 && --at == 0) inner(); };
      });
      if (!ran) { got[1] = jobs[1].run(); } else nontrivial();
   } else {
      std::vector<std::function<void()>> bodies;
      for(int i=0;i<n;i++) bodies.push_back([&,i] { got[i] = jobs[i].run(); });
      runThreads(bodies);
      if (switches() > 2) nontrivial();
   }
   for(int i=0;i<n;i++) {
      if (!same(solo[i],got[i]))
         fail("interference",fmt("search %d (%s width %d): alone %s; %s %s",i,jobs[i].in->name.c_str(),jobs[i].width,show(solo[i]).c_str(),nested ? "nested" : "interleaved",show(got[i]).c_str()));
      mark(got[i].trace);
   }
}
static Reg r09("C09",c09);

// ---------------------------------------------------------------------- C10
static void c10() {
   drawKnobs(); drawHeap(); drawClock(true);
   GenCfg g = drawCfg();
   InstP in = drawInstance(g);
   Job j = drawJob(in.get());
   Outcome a = j.run();
   note(fmt("%s width %d: %s",in->name.c_str(),j.width,show(a).c_str()));
   int n = 1 + (int)draw(3);
   for(int k=0;k<n;k++) {
      drawHeap(); drawClock(true);
      consoleReset();
      bool cons = chance(1,3);
      if (cons) console.failAfter = draw(oneOf(std::vector<uint32_t>{1,40,200,2000}));
      if (chance(1,4)) { int hm = hashMode; GenCfg q; q.size = 0; InstP o = drawInstance(q); Job oj = drawJob(o.get()); oj.run(); hashMode = hm; count("history.other-search"); }
      if (chance(1,4)) { std::cout.precision(pick(1,12)); std::cout.setf(std::ios::scientific,std::ios::floatfield); count("history.console-format"); }
      // something else sits in memory
      std::vector<std::unique_ptr<char[]>> junk; int m = (int)draw(6); for(int i=0;i<m;i++) junk.push_back(std::make_unique<char[]>(16 + draw(200)));
      if (m > 2) junk.erase(junk.begin());
      bool jit = chance(1,2);
      Outcome b = j.run([&](Actor& A,History&,BAndB&) { if (jit) A.onCall = [&](int,uint64_t,int) { if (clockCfg.jitter && (A.calls & 7) == 3) clockRead(); }; });
      if (!same(a,b)) fail("not-reproducible",fmt("%s width %d: first %s; in another environment %s",in->name.c_str(),j.width,show(a).c_str(),show(b).c_str()));
      count("environments");
   }
   consoleReset();
   if (a.calls > 20) nontrivial();
   mark(a.trace); mark(a.ann);
}
static Reg r10("C10",c10);

// ---------------------------------------------------------------------- C11
static void c11() {
   drawKnobs(); drawHeap(); drawClock(false);
   GenCfg g = drawCfg();
   InstP in = drawInstance(g);
   Job j = drawJob(in.get());
   double want = in->answer(); if (j.start && in->better(j.startV,want)) want = j.startV;
   uint64_t a0 = heapAllocs();
   Outcome ref = j.run();
   uint64_t total = heapAllocs() - a0;
   // early allocations (set-up) and late ones (in the middle of the search) get equal attention
   int64_t at = chance(1,3) ? 1 + draw((uint32_t)std::min<uint64_t>(total,60)) : 1 + draw((uint32_t)std::min<uint64_t>(total,1000000));
   bool sticky = chance(1,3); int reuse = (int)draw(3); int w2 = drawWidth(); bool again = chance(1,4); int64_t at2 = 1 + draw((uint32_t)std::min<uint64_t>(total,1000000));
   note(fmt("%s width %d: allocation %ld of %lu fails%s",in->name.c_str(),j.width,(long)at,(unsigned long)total,sticky ? ", and all after it" : ""));
   int rc = inChild([&] {
      Actor A; Bounds b; History h(in.get(),&b);
      AbstractDD::Ptr dd; std::unique_ptr<BAndB> e;
      if (j.start) { b.setPrimal(j.startV); h.base = j.startV; h.baseSet = true; }
      h.arm();
      for(int r=0;r < (again ? 2 : 1);r++) {
         bool threw = false;
         armAllocFailure(r ? at2 : at,sticky);
         try {
            if (!dd) { dd = in->make(&A,&b); e = std::make_unique<BAndB>(dd,j.width); }
            e->search(b);
         } catch(std::bad_alloc&) { threw = true; }
         bool fired = allocFailureFired();
         disarmAllocFailure();
         if (fired) count(sticky ? "fault.out-of-memory" : "fault.alloc-failure");
         if (threw) {
            if (!fired) fail("spurious-bad-alloc","bad_alloc although no allocation failed");
            count("outcome.exception");
            double known = h.baseSet ? h.base : in->none();
            if (b.hasPrimal() && b.getPrimal() != known) fail("lost-incumbent",fmt("%s: after the failure the primal bound is %g, known is %g",in->name.c_str(),b.getPrimal(),known));
         } else if (b.getPrimal() != want) fail("wrong-optimum",fmt("%s width %d: %s and the search returned %g, expected %g",in->name.c_str(),j.width,fired ? "an allocation failed" : "nothing failed",b.getPrimal(),want));
         else if (fired) count("outcome.survived");
         std::string why; if (!checkHeapCanaries(why)) fail("heap-overflow",why);
         // memory is back
         if (!dd || reuse == 2) dd = in->make(&A,&b);
         if (!e || reuse >= 1) e = std::make_unique<BAndB>(dd,reuse == 1 ? w2 : j.width);
      }
      e->search(b);
      if (b.getPrimal() != want) fail("wrong-optimum",fmt("%s: the search after an allocation failure returned %g, expected %g",in->name.c_str(),b.getPrimal(),want));
      mark(A.trace);
   });
   if (rc == 1) { count("outcome.fail-stop"); mark(1); }
   if (total > 40) nontrivial();
   mark(ref.trace); mark((uint64_t)at);
}
static Reg r11("C11",c11);

// ---------------------------------------------------------------------- C12
static void c12() {
   drawKnobs(); drawHeap(); drawClock(true);
   uint64_t lb0 = liveBlocks(), by0 = liveBytes(); long ls0 = liveStates;
   {
      GenCfg g = drawCfg();
      InstP in = drawInstance(g);
      Actor A; Bounds b; History h(in.get(),&b);
      auto dd = in->make(&A,&b);
      auto e = std::make_unique<BAndB>(dd,drawWidth());
      int n = 2 + (int)draw(8);
      h.arm();
      uint64_t lb1 = liveBlocks(), by1 = liveBytes(); long ls1 = liveStates;
      uint64_t baseB = 0, baseY = 0; long baseS = 0; bool measured = false;
      for(int k=0;k<n;k++) {
         int kind = k < 2 ? 0 : (int)draw(5); int m = 1 + (int)draw((uint32_t)oneOf(std::vector<int>{5,50,500})); int polls = 0;
         A.throwIn = -1; h.throwAt = -1; e->setTimeLimit(nullptr);
         { OffArena o; h.vals.clear(); h.labels.clear(); }
         b.setPrimal(in->none()); h.baseSet = false;
         if (kind == 1) e->setTimeLimit([&polls,m](double) { return ++polls > m % 10; });
         if (kind == 2 || kind == 3) A.throwIn = m;
         if (kind == 4) h.throwAt = 1 + m % 3;
         try { e->search(b); } catch(Boom&) { count("interruptions"); }
         if (kind == 1) count("fault.limit-armed");
         e->setTimeLimit(nullptr);
         if (measured && (liveBlocks() > baseB + 2 || liveBytes() > baseY + 4096 || liveStates > baseS))
            fail("growth",fmt("%s: after search %d the library holds %lu blocks, %lu bytes, %ld states; after the second one %lu, %lu, %ld",in->name.c_str(),k,(unsigned long)(liveBlocks()-lb1),(unsigned long)(liveBytes()-by1),liveStates-ls1,(unsigned long)(baseB-lb1),(unsigned long)(baseY-by1),baseS-ls1));
         if (k == 1) { measured = true; baseB = liveBlocks(); baseY = liveBytes(); baseS = liveStates; }
         count("searches");
      }
      A.throwIn = -1; h.throwAt = -1;
      // one diagram, rebuilt again and again
      if (in->nodeLevel && chance(1,2)) {
         auto d = dd->duplicate(); auto root = d->makeNDAllocator(); 
         Relaxed rs(drawWidth()); Restricted ts(drawWidth()); Exact xs;
         Strategy* st = draw(3) == 0 ? (Strategy*)&rs : draw(2) ? (Strategy*)&ts : (Strategy*)&xs;
         d->setStrategy(st);
         auto src = in->make(&A,&b); auto from = root->cloneNode(src->init());
         struct Op { int boom; bool cut; } ops[5];
         for(auto& o : ops) { o.boom = chance(1,4) ? 1 + (int)draw(20) : -1; o.cut = chance(1,2); }
         uint64_t mx[4] = {0}; long st4[4] = {0};
         for(int i=0;i<20;i++) {             // the same five computations, four times over
            auto& o = ops[i % 5];
            b.setPrimal(in->none()); h.baseSet = false; { OffArena o2; h.vals.clear(); h.labels.clear(); }
            A.throwIn = o.boom;
            try { d->apply(from,b); if (o.cut) d->computeCutSet(); } catch(Boom&) { count("interruptions"); }
            A.throwIn = -1;
            mx[i/5] = std::max(mx[i/5],liveBytes()); st4[i/5] = std::max(st4[i/5],liveStates);
         }
         if (mx[3] > mx[1] + 4096) fail("growth",fmt("%s: a diagram rebuilt 20 times holds %lu bytes, after 10 times %lu",in->name.c_str(),(unsigned long)mx[3],(unsigned long)mx[1]));
         if (st4[3] > st4[1]) fail("growth",fmt("%s: a diagram rebuilt 20 times holds %ld model states, after 10 times %ld",in->name.c_str(),st4[3],st4[1]));
         count("rebuilt");
      }
      if (A.calls > 40) nontrivial();
      mark(A.trace);
   }
   if (liveStates != ls0) fail("state-leak",fmt("%ld model states were not destroyed",liveStates - ls0));
   if (liveBlocks() != lb0 || liveBytes() != by0) fail("memory-leak",fmt("%ld blocks, %ld bytes were not returned",(long)(liveBlocks()-lb0),(long)(liveBytes()-by0)));
}
static Reg r12("C12",c12);
