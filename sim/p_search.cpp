// Whole searches: C01 optimum, C02 announcements, C03 interruption and resumption, C04 time limit, C05 output.
#include "hist.hpp"
#include <cstring>
#include <cmath>
using namespace sim;

static void expectValue(const Inst& in,double got,double want,int width,const char* what) {
   if (got != want)
      fail("wrong-optimum",fmt("%s width %d: %s ended with %g, expected %g (optimum %g)",in.name.c_str(),width,what,got,want,in.answer()));
}

// ---------------------------------------------------------------------- C01
static void c01() {
   drawKnobs(); drawHeap(); drawClock(true);
   InstP in = drawInstance(drawCfg(3));
   int width = drawWidth();
   Actor A;
   Bounds b; History h(in.get(),&b);
   auto dd = in->make(&A,&b);
   double want = drawStart(*in,b,dd,h);
   auto engine = std::make_unique<BAndB>(dd,width);
   engine->search(b);
   note(fmt("width %d: search returned %g, expected %g",width,b.getPrimal(),want));
   mark(A.trace); mark(dbits(b.getPrimal()));
   if (A.byKind[K_TARGET] > 2) { nontrivial(); count("probe.several-subproblems"); }
   expectValue(*in,b.getPrimal(),want,width,"the search");
   // more searches on the same objects
   if (A.byKind[K_TARGET] > 512) count("probe.over-256-subproblems");
   if (A.byKind[K_TARGET] > 2000) count("probe.over-1000-subproblems");
   int more = chance(1,3) ? 1 + (int)draw(in->shaped == 3 ? 1 : 3) : 0;
   if (A.calls < 200 && chance(1,3000)) { more = 254 + (int)draw(50); count("probe.repeated-often"); }
   for(int k=0;k<more;k++) {
      switch(draw(5)) {
         case 0: note("again: fresh bounds, same solver"); b = Bounds(); want = in->answer(); break;
         case 1: note("again: same bounds, same solver"); break;
         case 2: width = drawWidth(); note(fmt("again: fresh bounds, new solver of width %d, same model",width)); engine = std::make_unique<BAndB>(dd,width); b = Bounds(); want = in->answer(); break;
         case 3: { note("another model is solved in between"); Actor A2; Bounds b2; GenCfg g; g.size = 0; const int keep = hashMode; InstP in2 = drawInstance(g); auto dd2 = in2->make(&A2,&b2); BAndB e2(dd2,drawWidth()); e2.search(b2); expectValue(*in2,b2.getPrimal(),in2->answer(),0,"the other search"); hashMode = keep;
               b = Bounds(); want = in->answer(); break; }
         default: note("again: fresh bounds, fresh copy of the model"); b = Bounds(); want = in->answer(); dd = dd->duplicate(); engine = std::make_unique<BAndB>(dd,width); break;
      }
      count("searches.repeated");
      engine->search(b);
      mark(A.trace); mark(dbits(b.getPrimal()));
      expectValue(*in,b.getPrimal(),want,width,"a repeated search");
   }
}
static Reg r01("C01",c01);

// ---------------------------------------------------------------------- C02
static void c02() {
   drawKnobs(); drawHeap(); drawClock(true);
   InstP in = drawInstance(drawCfg(1));
   int width = drawWidth();
   Actor A;
   struct Ev { int id; std::vector<int> l; double p; };
   std::vector<Ev> log;
   std::unique_ptr<Bounds> bp;
   int nCb = 0;
   auto mk = [&](int id) { return [&log,&bp,id](const std::vector<int>& l) { OffArena o; log.push_back({id,l,bp->getPrimal()}); }; };
   if (draw(2)) { bp = std::make_unique<Bounds>(mk(0)); nCb = 1; } else bp = std::make_unique<Bounds>();
   Bounds& b = *bp;
   auto dd = in->make(&A,&b);
   History h(in.get(),&b);
   double want;
   double baseV = 0; bool baseSet = false;
   if (chance(1,4) && in->feasible) { double s = pick(1,6); b.setPrimal(in->maxi ? in->opt - s : in->opt + s); baseV = b.getPrimal(); baseSet = true; }
   want = in->answer();
   BAndB engine(dd,width);
   int rounds = 1 + (int)draw(in->shaped == 3 ? 1 : 3);
   for(int r=0;r<rounds;r++) {
      int add = (int)draw(3); if (r == 0 && nCb == 0) add++;
      for(int k=0;k<add;k++) b.onSolution(mk(nCb++));
      log.clear();
      bool fresh = r == 0 || !in->feasible;
      if (r > 0 && chance(1,2) && in->feasible) {       // worsen the known value: everything is announced again
         double s = pick(1,9); b.setPrimal(in->maxi ? in->opt - s : in->opt + s); baseV = b.getPrimal(); baseSet = true; fresh = true;
      }
      engine.search(b);
      if (b.getPrimal() != want) fail("wrong-optimum",fmt("%s: ended with %g instead of %g",in->name.c_str(),b.getPrimal(),want));
      if (log.size() % nCb) fail("callback-count",fmt("%s: %zu callback calls for %d registered callbacks",in->name.c_str(),log.size(),nCb));
      OffArena o;
      for(size_t i=0;i<log.size();i++) {
         auto& e = log[i]; auto& f = log[i - i % nCb];
         if (e.id != (int)(i % nCb)) fail("callback-order",fmt("%s: call %zu went to callback %d, expected %d",in->name.c_str(),i,e.id,(int)(i % nCb)));
         if (e.l != f.l || e.p != f.p) fail("callback-mismatch",fmt("%s: callbacks of one announcement saw %s/%g and %s/%g",in->name.c_str(),show(f.l).c_str(),f.p,show(e.l).c_str(),e.p));
         if (e.id) continue;
         double v; std::string why;
         if (!in->check(e.l,v,why)) fail("bogus-incumbent",fmt("%s: announced %s which is not a solution: %s",in->name.c_str(),show(e.l).c_str(),why.c_str()));
         if (v != e.p) fail("incumbent-value",fmt("%s: announced %s worth %g while the primal bound said %g",in->name.c_str(),show(e.l).c_str(),v,e.p));
         if (baseSet && !in->better(v,baseV)) fail("no-improvement",fmt("%s: announced %g although %g was known",in->name.c_str(),v,baseV));
         baseV = v; baseSet = true;
         note(fmt("  announced %s worth %g to %d callbacks",show(e.l).c_str(),v,nCb));
         mark(dbits(v)); for(int x : e.l) mark((uint64_t)x);
      }
      if (fresh && in->feasible && (log.empty() || log.back().p != in->opt))
         fail("optimum-not-announced",fmt("%s: the search completed with %g, last announcement %g",in->name.c_str(),b.getPrimal(),log.empty() ? NAN : log.back().p));
      if (!in->feasible && !log.empty()) fail("bogus-incumbent","announced a solution of an infeasible model");
      count("announcements",log.size()/nCb);
      if (log.size() > (size_t)nCb) count("probe.several-announcements");
      if (!log.empty()) nontrivial();
   }
   mark(A.trace);
}
static Reg r02("C02",c02);

// ---------------------------------------------------------------------- C03
// Runs f at a much greater stack depth below a patterned buffer; anything that still writes into frames
// of an earlier search damages the pattern.
static __attribute__((noinline)) void belowPattern(const std::function<void()>& f) {
   constexpr size_t N = 8192;
   volatile unsigned char pad[N];
   for(size_t i=0;i<N;i++) pad[i] = 0x6B;
   f();
   for(size_t i=0;i<N;i++) if (pad[i] != 0x6B) fail("stack-corruption",fmt("a finished search wrote into the stack of its caller (offset %zu)",i));
}
static void c03() {
   drawKnobs(); drawHeap(); drawClock(true);
   InstP in = drawInstance(drawCfg());
   int width = drawWidth();
   Actor A; Bounds b; History h(in.get(),&b);
   auto dd = in->make(&A,&b);
   double want = drawStart(*in,b,dd,h);
   double floorV = h.baseSet ? h.base : in->none();
   h.arm();
   auto engine = std::make_unique<BAndB>(dd,width);
   int cuts = 1 + (int)draw(3); int real = 0;
   for(int k=0;k<cuts;k++) {
      int kind = (int)draw(6);
      int n = 1 + (int)draw((uint32_t)oneOf(std::vector<int>{4,12,40,200,1000}));
      int polls = 0; bool stopped = false, threw = false;
      A.throwIn = -1; h.throwAt = -1;
      engine->setTimeLimit(nullptr);
      switch(kind) {
         case 0: n = 1 + n % 12; engine->setTimeLimit([&,n](double) { if (++polls >= n) { stopped = true; A.silenced = true; h.silenced = true; count("fault.limit-stop"); return true; } return false; }); note(fmt("interrupt: stop at poll %d",n)); break;
         case 1: case 2: A.throwIn = n; note(fmt("interrupt: model call %d throws",n)); break;
         case 3: n = 1 + n % 3; h.throwAt = n; note(fmt("interrupt: announcement %d throws",n)); break;
         case 4: n = 1 + n % 8; engine->setTimeLimit([&,n](double) { if (++polls >= n) { count("fault.limit-exception"); throw Boom(); } return false; }); note(fmt("interrupt: limit predicate throws at poll %d",n)); break;
         default: { int by = n % 97; n = 1 + n % 6; engine->setTimeLimit([&,n,by](double) { if (++polls == n) { console.failAfter = (int64_t)console.bytes + by; std::cout.exceptions(std::ios::badbit|std::ios::failbit); } return false; }); note(fmt("interrupt: console breaks %d bytes after poll %d",by,n)); break; }
      }
      try { belowPattern([&] { engine->search(b); }); }
      catch(Boom&) { threw = true; note("  interrupted by the injected exception"); }
      catch(std::ios_base::failure&) { threw = true; count("fault.console-exception"); note("  interrupted by the console"); }
      A.silenced = false; h.silenced = false; A.throwIn = -1; h.throwAt = -1;
      consoleReset();
      if (stopped || threw) { real++; count("interruptions"); }
      double known = h.baseSet ? h.base : floorV;
      if (b.hasPrimal() && b.getPrimal() != known)
         fail("lost-incumbent",fmt("%s: after the interruption the primal bound is %g, the best value known is %g",in->name.c_str(),b.getPrimal(),known));
      if (!b.hasPrimal() && h.baseSet) fail("lost-incumbent","the bounds object forgot its value");
      if (!stopped && !threw) { expectValue(*in,b.getPrimal(),want,width,"a search that was not interrupted"); }
      engine->setTimeLimit(nullptr);
      switch(draw(4)) {                      // with what do we go on?
         case 0: break;
         case 1: width = drawWidth(); engine = std::make_unique<BAndB>(dd,width); note(fmt("go on with a new solver of width %d",width)); break;
         case 2: dd = dd->duplicate(); engine = std::make_unique<BAndB>(dd,width); note("go on with a copy of the model"); break;
         default: dd = in->make(&A,&b); engine = std::make_unique<BAndB>(dd,width); note("go on with a fresh model"); break;
      }
   }
   engine->setTimeLimit(nullptr);
   size_t before = h.vals.size();
   size_t l0 = console.lines.size();
   belowPattern([&] { engine->search(b); });
   size_t times = 0;
   for(size_t i=l0;i<console.lines.size();i++) times += console.lines[i].text.rfind("TIME:",0) == 0;
   if (times > h.vals.size() - before)
      fail("stale-search",fmt("%zu announcements were answered by %zu running searches",h.vals.size()-before,times));
   expectValue(*in,b.getPrimal(),want,width,"the resumed search");
   if (real) nontrivial();
   if (real > 1) count("probe.several-interruptions");
   if (h.vals.size() > before && real) count("probe.improved-after-resume");
   mark(A.trace); mark(h.hash());
}
static Reg r03("C03",c03);

// ---------------------------------------------------------------------- C04
struct Done { bool ok=false; double primal=0; unsigned long a=0,c=0; int lim=-1; double t1=0,t2=0; };
static Done parseDone(const std::string& s) {
   Done d; int w; long seen; unsigned p,q;
   if (sscanf(s.c_str(),"Done(%d):%lf\t #nodes:%lu/%lu\t P/D:%u/%u\t Time:%lf/%lfs\t LIM?:%d\t Seen:%ld",&w,&d.primal,&d.a,&d.c,&p,&q,&d.t1,&d.t2,&d.lim,&seen) >= 9) d.ok = true;
   return d;
}
static Done lastDone(size_t from) {
   Done d;
   for(size_t i=from;i<console.lines.size();i++) if (console.lines[i].text.rfind("Done(",0) == 0) d = parseDone(console.lines[i].text);
   if (!d.ok) fail("no-summary","the search ended without a readable summary line");
   return d;
}
static void steadyClock() {
   clockCfg = ClockCfg();
   monoNs = (int64_t)oneOf(std::vector<int64_t>{1000000000ll,86400000000000ll,5ll,2147483000000000ll,4294967000000000ll});
   clockCfg.readStepNs = oneOf(std::vector<int64_t>{1000,0,300000});
   clockCfg.callStepNs = oneOf(std::vector<int64_t>{0,1000,700000,20000000,400000000});
   clockCfg.jumps = chance(1,2);
}
static void c04() {
   drawKnobs(); drawHeap(); steadyClock();
   InstP in = drawInstance(drawCfg());
   int width = drawWidth();
   bool maker = in->primalDependent; (void)maker;
   uint64_t refTrace, refAnn; uint64_t refCalls;
   {  // the same search without any limit
      Actor A; Bounds b; History h(in.get(),&b); auto dd = in->make(&A,&b); h.arm();
      BAndB e(dd,width); e.search(b);
      refTrace = A.trace; refAnn = h.hash(); refCalls = A.calls;
   }
   Actor A; Bounds b; History h(in.get(),&b);
   auto dd = in->make(&A,&b); h.arm();
   BAndB e(dd,width);
   int64_t stallAt = chance(1,2) ? 1 + (int64_t)draw((uint32_t)refCalls) : -1;
   int64_t stallNs = oneOf(std::vector<int64_t>{3600000000000ll,6000000000ll,86400000000000ll,900000000ll,2200000000000000ll,4400000000000000ll,31536000000000000ll});
   int mode = (int)draw(4);          // 0: always false, 1: stop at poll n, 2: stop on elapsed time, 3: stop at once
   int stopAt = 1 + (int)draw(30); double stopMs = oneOf(std::vector<double>{1,10,1000,60000,4000000,2150000000.0,4300000000.0});
   uint64_t polls = 0, targets = 0; double lastMs = 0; bool told = false;
   int64_t start = monoNs; int64_t allow = 12*(clockCfg.readStepNs + clockCfg.callStepNs) + 2000000;
   A.onCall = [&](int k,uint64_t,int) {
      if (k == K_TARGET && ++targets > (polls ? 3 : 0)) fail("limit-not-consulted",fmt("%s: %lu diagrams built since the limit was last consulted (poll %lu)",in->name.c_str(),(unsigned long)targets,(unsigned long)polls));
      if (stallAt > 0 && --stallAt == 0) { advance(stallNs); count("fault.stall"); }
   };
   e.setTimeLimit([&](double ms) {
      if (told) fail("limit-ignored","the limit was consulted again after it had answered true");
      polls++; targets = 0;
      double el = (double)(monoNs - start)/1e6;
      if (!(ms >= 0) || ms < lastMs) fail("elapsed-decreased",fmt("poll %lu: elapsed %.3f ms after %.3f ms",(unsigned long)polls,ms,lastMs));
      if (ms > el + 1 || ms < el - (double)allow/1e6) fail("elapsed-wrong",fmt("poll %lu: elapsed time given as %.3f ms, really %.3f ms since the start",(unsigned long)polls,ms,el));
      lastMs = ms;
      bool r = (mode == 1 && (int)polls >= stopAt) || (mode == 2 && ms > stopMs) || mode == 3;
      if (r) { told = true; A.silenced = true; h.silenced = true; count("fault.limit-stop"); note(fmt("limit answers true at poll %lu, %.3f ms",(unsigned long)polls,ms)); }
      return r;
   });
   size_t l0 = console.lines.size();
   e.search(b);
   Done d = lastDone(l0);
   if (polls == 0) fail("limit-not-consulted","the limit was never consulted");
   if ((d.lim != 0) != told) fail("limit-report",fmt("%s: the summary says LIM?:%d, the limit %s",in->name.c_str(),d.lim,told ? "stopped the search" : "was not hit"));
   if (!told) {
      if (b.getPrimal() != in->answer()) fail("wrong-optimum",fmt("%s: completed with %g instead of %g",in->name.c_str(),b.getPrimal(),in->answer()));
      if (A.trace != refTrace || h.hash() != refAnn) fail("limit-changes-search",fmt("%s: a limit that never fires changed the search (%lu calls instead of %lu)",in->name.c_str(),(unsigned long)A.calls,(unsigned long)refCalls));
   }
   if (polls > 1 || told) nontrivial();
   if (told && polls > 1) count("probe.stopped-midway");
   count("polls",polls);
   mark(A.trace); mark(polls); mark((uint64_t)told); mark(dbits(lastMs));
}
static Reg r04("C04",c04);

// ---------------------------------------------------------------------- C05
static void c05() {
   drawKnobs(); drawHeap(); steadyClock();
   InstP in = drawInstance(drawCfg());
   int width = drawWidth();
   Actor A; Bounds b; History h(in.get(),&b);
   auto dd = in->make(&A,&b);
   double want = drawStart(*in,b,dd,h);
   double startV = h.baseSet ? h.base : in->none();
   BAndB e(dd,width);
   int rounds = 1 + (int)draw(2);
   h.arm();
   for(int r=0;r<rounds;r++) {
      int64_t start = monoNs, lastLine = monoNs; bool bigStep = false;
      int64_t stallAt = chance(1,2) ? 1 + (int64_t)draw(oneOf(std::vector<uint32_t>{10,100,1000})) : -1;
      int64_t stallNs = oneOf(std::vector<int64_t>{6000000000ll,5200000000ll,3600000000000ll,86400000000000ll,2200000000000000ll,31536000000000000ll});
      int stopAt = chance(1,4) ? 1 + (int)draw(10) : 1<<30; int polls = 0; unsigned long explored = 0; bool inside = false, told = false;
      int64_t annT = -1; size_t ann0 = h.vals.size();
      int64_t slackNs = 12*(clockCfg.readStepNs + clockCfg.callStepNs) + 5000000;
      int64_t due = -1; size_t progress = 0;
      A.onCall = [&](int k,uint64_t,int) {
         if (stallAt > 0 && --stallAt == 0) { advance(stallNs); count("fault.stall"); }
         if (k == K_TARGET && inside) { inside = false; explored++; }
         if (k == K_TARGET && due >= 0) fail("missing-progress",fmt("%s: more than five seconds (%.3f s) without a progress line when the next subproblem started",in->name.c_str(),(double)due/1e9));
      };
      console.onLine = [&](const Line& l) {
         if (l.text.rfind("B&B(",0) != 0) return;
         unsigned long nn; double dual=0,prim=0; char t1[64],t2[64]; double tm = -1;
         progress++;
         if (sscanf(l.text.c_str(),"B&B(%lu)\t %63s\t %63s\t",&nn,t1,t2) != 3) fail("garbled-progress","unreadable progress line: " + l.text);
         const char* at = strstr(l.text.c_str(),"time:"); if (at) sscanf(at,"time:%lfs",&tm);
         prim = atof(t2);
         double cur = h.vals.empty() ? (b.hasPrimal() ? b.getPrimal() : startV) : h.base;
         auto close = [](double x,double y) { return std::abs(x-y) <= 1e-5*(1+std::abs(y)); };
         if (!close(prim,cur)) fail("progress-primal",fmt("%s: progress line says primal %g, it is %g",in->name.c_str(),prim,cur));
         if (strcmp(t1,"-")) {
            dual = atof(t1);
            double best = in->better(dual,prim) ? dual : prim;
            if (in->feasible && in->better(in->opt,best) && !close(in->opt,best)) fail("progress-dual",fmt("%s: progress line claims dual %g primal %g, the optimum is %g",in->name.c_str(),dual,prim,in->opt));
            count("probe.dual-shown");
         }
         if (at) { double el = (double)(l.at - start)/1e9; if (tm > el*(1+1e-4) + 0.002 || tm < el*(1-1e-4) - (double)slackNs/1e9 - 0.002) fail("progress-time",fmt("progress line says %g s, really %g s",tm,el)); }
         lastLine = l.at; due = -1;
         note("  line: " + l.text);
      };
      e.setTimeLimit([&](double) {
         polls++; inside = true;
         if (monoNs - lastLine > 5000000000ll + slackNs) due = monoNs - lastLine;
         if (polls >= stopAt) { told = true; count("fault.limit-stop"); return true; }
         return false;
      });
      size_t l0 = console.lines.size();
      (void)bigStep;
      e.search(b);
      console.onLine = nullptr; A.onCall = nullptr;
      Done d = lastDone(l0);
      double total = (double)(monoNs - start)/1e9;
      if (h.vals.size() > ann0) annT = h.lastAt;
      if (std::abs(d.primal - b.getPrimal()) > 1e-5*(1+std::abs(b.getPrimal()))) fail("summary-value",fmt("%s: the summary says %g, the bound is %g",in->name.c_str(),d.primal,b.getPrimal()));
      if (d.a > d.c) fail("summary-nodes",fmt("summary: %lu explored of %lu",d.a,d.c));
      if ((unsigned long)polls - told != d.c) fail("summary-nodes",fmt("summary: %lu nodes, %d were taken up",d.c,polls - (int)told));
      if (d.a != explored) fail("summary-nodes",fmt("summary: %lu nodes explored, diagrams were built for %lu",d.a,explored));
      double tol = (double)slackNs/1e9 + 0.002;
      if (d.t2 > total*(1+1e-4) + 0.002 || d.t2 < total*(1-1e-4) - tol) fail("summary-time",fmt("summary: total time %g s, really %g s",d.t2,total));
      double opt = annT < 0 ? 0 : (double)(annT - start)/1e9;
      if (d.t1 > d.t2 + 1e-9 || d.t1 > opt*(1+1e-4) + tol || d.t1 < opt*(1-1e-4) - tol) fail("summary-time",fmt("summary: best solution after %g s (really %g s), total %g s",d.t1,opt,d.t2));
      if ((d.lim != 0) != told) fail("limit-report",fmt("the summary says LIM?:%d, the limit %s",d.lim,told ? "stopped the search" : "was not hit"));
      if (!told && b.getPrimal() != want) fail("wrong-optimum",fmt("%s: completed with %g instead of %g",in->name.c_str(),b.getPrimal(),want));
      count("progress-lines",progress); count("subproblems",polls); if (polls > 256) count("probe.over-256-subproblems"); if (polls > 1000) count("probe.over-1000-subproblems");
      if (progress) nontrivial();
      mark(progress); mark(d.a); mark(d.c); mark((uint64_t)monoNs);
      if (chance(1,2)) { b.setPrimal(in->feasible ? (in->maxi ? in->opt - 3 : in->opt + 3) : b.getPrimal()); h.base = b.getPrimal(); h.baseSet = true; h.vals.clear(); h.labels.clear(); want = in->feasible ? in->opt : b.getPrimal(); }
   }
   mark(A.trace);
}
static Reg r05("C05",c05);
