// Single diagrams: C06 relaxed, C07 restricted, C08 exact.
#include "hist.hpp"
#include <set>
using namespace sim;

struct Subs {       // subproblem roots, cloned into an allocator that outlives the diagrams
   AbstractDD::Ptr src; AbstractNodeAllocator::Ptr pool; std::vector<ANode::Ptr> open;
   Subs(AbstractDD::Ptr d) : src(d) { pool = src->makeNDAllocator(); open.push_back(pool->cloneNode(src->init())); }
};
static std::vector<int> labelsOf(ANode::Ptr n) { std::vector<int> r; auto& v = n->getIncumbent(); for(auto i = v.begin();i != v.end();i++) r.push_back(*i); return r; }
static bool prefix(const std::vector<int>& a,const std::vector<int>& b) { return a.size() <= b.size() && std::equal(a.begin(),a.end(),b.begin()); }
static std::string where(const Inst& in,ANode::Ptr from,int width) { return fmt("%s width %d from %s",in.name.c_str(),width,show(labelsOf(from)).c_str()); }

// How many states of each layer are expanded while one diagram is built (the label function is asked about each of them).
struct Widths {
   std::map<uint64_t,std::set<uint64_t>> per; uint64_t merges = 0;
   void reset() { OffArena o; per.clear(); merges = 0; }
   void hook(Actor& A) { A.onCall = [this](int k,uint64_t h,int) { if (k == K_LABELS) { OffArena o; per[h>>48].insert(h); } else if (k == K_MERGE) merges++; }; }
   int widest() const { size_t w = 0; for(auto& [l,n] : per) w = std::max(w,n.size()); return (int)w; }
   void check(const std::string& w,int width) { OffArena o; for(auto& [l,n] : per) if ((int)n.size() > width) fail("width-exceeded",fmt("%s: layer %d expanded %zu states",w.c_str(),(int)l,n.size())); }
};
static void drawIncumbent(const Inst& in,const AbstractDD::Ptr& dd,Bounds& b,History& h) {
   b.attach(dd);
   if (in.feasible && chance(1,2)) { double s = pick(0,30)*0.5 - 3; b.setPrimal(in.maxi ? in.opt - s : in.opt + s); }
   h.base = b.getPrimal(); h.baseSet = true;
}
static GenCfg nodeCfg() { GenCfg g = drawCfg(4); g.nodeOnly = true; return g; }      // models whose states the reference can read

// A fault inside a diagram computation: the object is used again afterwards.
static bool maybeInterrupt(Actor& A,AbstractDD::Ptr dd,ANode::Ptr from,Bounds& b) {
   if (!chance(1,6)) return false;
   A.throwIn = 1 + draw(30);
   bool threw = false;
   try { dd->apply(from,b); } catch(Boom&) { threw = true; count("interruptions"); note("  (a computation was interrupted and is started again)"); }
   A.throwIn = -1;
   return threw;
}

// ---------------------------------------------------------------------- C06
static void c06() {
   drawKnobs(); drawHeap();
   InstP in = drawInstance(nodeCfg());
   int width = drawWidth();
   Actor A; Bounds b; History h(in.get(),&b);
   auto top = in->make(&A,&b);
   drawIncumbent(*in,top,b,h);
   h.arm();
   AbstractDD::Ptr dd = top->duplicate();
   Relaxed strat(width); dd->setStrategy(&strat);
   Subs s(top);
   int steps = 1 + (int)draw(8);
   Widths W;
   for(int k=0;k<steps && !s.open.empty();k++) {
      size_t at = draw((uint32_t)s.open.size());
      auto from = s.open[at]; s.open.erase(s.open.begin()+at);
      if (chance(1,8)) { width = drawWidth(); strat.setWidth(width); }
      const std::string w = where(*in,from,width);
      const auto path = labelsOf(from);
      double togo; bool feas = in->togo(from,togo); double best = from->getBound() + togo;
      maybeInterrupt(A,dd,from,b);
      const double P0 = b.getPrimal(); size_t ann = h.vals.size();
      W.reset(); W.hook(A);
      bool improved = dd->apply(from,b);
      A.onCall = nullptr;
      const double V = dd->currentOpt();
      note(fmt("relaxed %s: value %g exact %d, incumbent %g -> %g, true best %s",w.c_str(),V,(int)dd->isExact(),P0,b.getPrimal(),feas ? fmt("%g",best).c_str() : "none"));
      if (in->universalMerge && !in->useDom) W.check(w,width);
      const bool want = feas && in->better(best,P0);
      if (want && !in->betterEQ(V,best)) fail("bound-too-tight",fmt("%s: relaxed value %g, a solution worth %g exists (incumbent %g)",w.c_str(),V,best,P0));
      if (improved != in->better(V,P0)) fail("apply-result",fmt("%s: value %g incumbent %g but apply says %d",w.c_str(),V,P0,(int)improved));
      if (!dd->isExact() && W.merges == 0) fail("false-inexact",w + ": nothing was merged and the diagram does not declare itself exact");
      if (dd->isExact()) {
         count("probe.exact");
         if (in->better(V,P0)) {
            if (!want || V != best) fail("exact-value",fmt("%s: exact diagram says %g, the best is %s",w.c_str(),V,feas ? fmt("%g",best).c_str() : "none"));
            auto l = dd->incumbent(); double v; std::string why;
            if (!in->check(l,v,why) || v != V || !prefix(path,l)) fail("exact-path",fmt("%s: exact diagram returned %s (%s) for value %g",w.c_str(),show(l).c_str(),why.c_str(),V));
            if (b.getPrimal() != V || h.vals.size() != ann+1) fail("exact-not-recorded",fmt("%s: an exact improving diagram was not recorded",w.c_str()));
         }
      }
      mark(dbits(V)); mark((uint64_t)dd->isExact());
      if (!improved) continue;
      const double P1 = b.getPrimal();
      if (!dd->isExact() || chance(1,2)) {
         auto cs = dd->computeCutSet();
         if (dd->isExact() && !cs.empty()) fail("cutset-of-exact",w + ": an exact diagram has a cutset");
         bool covered = !want || in->betterEQ(P1,best);
         if (covered && want) count("probe.covered-by-incumbent");
         for(auto n : cs) {
            auto l = labelsOf(n); double v; uint64_t st;
            if (!prefix(path,l)) fail("cutset-path",fmt("%s: cutset path %s does not extend the root",w.c_str(),show(l).c_str()));
            if (!in->walk(l,v,st)) fail("cutset-path",fmt("%s: cutset path %s is not feasible",w.c_str(),show(l).c_str()));
            if (v != n->getBound() || st != in->stateOf(n)) fail("cutset-node",fmt("%s: cutset state reached by %s has value %g state %lx, the diagram says %g state %lx",w.c_str(),show(l).c_str(),v,(unsigned long)st,(double)n->getBound(),(unsigned long)in->stateOf(n)));
            double tg; bool f = in->togo(n,tg);
            if (f && in->better(v+tg,P1) && !in->betterEQ(v + n->getBackwardBound(),v+tg)) fail("cutset-bound",fmt("%s: cutset state %s is given bound %g, it can reach %g",w.c_str(),show(l).c_str(),v + n->getBackwardBound(),v+tg));
            if (f && in->betterEQ(v+tg,best)) covered = true;
            mark(st);
         }
         if (!covered) fail("cutset-coverage",fmt("%s: the solution worth %g is not below any of the %zu cutset states (incumbent %g)",w.c_str(),best,cs.size(),P1));
         if (!cs.empty()) { nontrivial(); count("cutsets"); }
         for(auto n : cs) { if (s.open.size() > 40) break; auto c = s.pool->cloneNode(n); if (c) s.open.push_back(c); }
      }
   }
   mark(A.trace);
}
static Reg r06("C06",c06);

// ---------------------------------------------------------------------- C07
static void c07() {
   drawKnobs(); drawHeap();
   InstP in = drawInstance(nodeCfg());
   int width = drawWidth();
   Actor A; Bounds b; History h(in.get(),&b);
   auto top = in->make(&A,&b);
   drawIncumbent(*in,top,b,h);
   h.arm();
   AbstractDD::Ptr dd = top->duplicate(), rx = top->duplicate();
   Restricted strat(width); dd->setStrategy(&strat);
   Relaxed rstrat(1 + (int)draw(3)); rx->setStrategy(&rstrat);
   Subs s(top);
   int steps = 1 + (int)draw(8);
   Widths W;
   for(int k=0;k<steps && !s.open.empty();k++) {
      size_t at = draw((uint32_t)s.open.size());
      auto from = s.open[at]; s.open.erase(s.open.begin()+at);
      if (chance(1,8)) { width = drawWidth(); strat.setWidth(width); }
      const std::string w = where(*in,from,width);
      const auto path = labelsOf(from);
      double togo; bool feas = in->togo(from,togo); double best = from->getBound() + togo;
      maybeInterrupt(A,dd,from,b);
      const double P0 = b.getPrimal(); size_t ann = h.vals.size();
      W.reset(); W.hook(A);
      bool improved = dd->apply(from,b);
      A.onCall = nullptr;
      const double V = dd->currentOpt();
      note(fmt("restricted %s: value %g exact %d, incumbent %g -> %g, true best %s",w.c_str(),V,(int)dd->isExact(),P0,b.getPrimal(),feas ? fmt("%g",best).c_str() : "none"));
      W.check(w,width);
      if (V != in->none()) {
         auto l = dd->incumbent(); double v; std::string why;
         if (!in->check(l,v,why)) fail("bogus-solution",fmt("%s: path %s: %s",w.c_str(),show(l).c_str(),why.c_str()));
         if (v != V) fail("wrong-value",fmt("%s: path %s is worth %g, the diagram says %g",w.c_str(),show(l).c_str(),v,V));
         if (!prefix(path,l)) fail("wrong-root",fmt("%s: path %s does not extend the subproblem",w.c_str(),show(l).c_str()));
         count("solutions");
      }
      if (improved != in->better(V,P0)) fail("apply-result",fmt("%s: value %g incumbent %g but apply says %d",w.c_str(),V,P0,(int)improved));
      if (improved && (b.getPrimal() != V || h.vals.size() != ann+1)) fail("not-recorded",fmt("%s: value %g was not recorded (primal %g)",w.c_str(),V,b.getPrimal()));
      if (!improved && b.getPrimal() != P0) fail("not-recorded","the incumbent changed without an improvement");
      if (!dd->isExact() && W.widest() < width) fail("false-inexact",fmt("%s: the diagram does not declare itself exact although no layer has more than %d states",w.c_str(),W.widest()));
      if (dd->isExact()) {
         count("probe.exact");
         if (feas && in->better(best,P0) && !in->betterEQ(V,best)) fail("false-exact",fmt("%s: claims to be exact with value %g, the best is %g",w.c_str(),V,best));
      } else { count("probe.cut"); nontrivial(); }
      mark(dbits(V)); mark((uint64_t)dd->isExact());
      // deeper subproblems
      Bounds tmp; tmp.attach(top);
      if (rx->apply(from,tmp)) for(auto n : rx->computeCutSet()) { if (s.open.size() > 40) break; auto c = s.pool->cloneNode(n); if (c) s.open.push_back(c); }
      if (chance(1,4)) { b.setPrimal(in->none()); h.base = in->none(); }
   }
   mark(A.trace);
}
static Reg r07("C07",c07);

// ---------------------------------------------------------------------- C08
static void c08() {
   drawKnobs(); drawHeap();
   GenCfg g = drawCfg(); g.tableOnly = chance(2,3); g.allowPrimalDependent = false;
   InstP in = drawInstance(g);
   Actor A; Bounds b; History h(in.get(),&b);
   auto dd = in->make(&A,&b);
   drawIncumbent(*in,dd,b,h);
   h.arm();
   Exact strat; dd->setStrategy(&strat);
   auto judge = [&](AbstractDD::Ptr d,double best,bool feas,const std::vector<int>& path,double P0,const char* what) {
      const double V = d->currentOpt();
      note(fmt("%s: %s value %g, incumbent was %g, true best %s",in->name.c_str(),what,V,P0,feas ? fmt("%g",best).c_str() : "none"));
      if (!d->isExact()) fail("not-exact","an exact diagram says it is not exact");
      if (feas && in->better(best,P0)) {
         if (V != best) fail("wrong-value",fmt("%s: %s gives %g, the optimum is %g (incumbent %g)",in->name.c_str(),what,V,best,P0));
         auto l = d->incumbent(); double v; std::string why;
         if (!in->check(l,v,why) || v != V || !prefix(path,l)) fail("bogus-solution",fmt("%s: %s returns %s worth %g (%s) for value %g",in->name.c_str(),what,show(l).c_str(),v,why.c_str(),V));
      } else if (in->better(V,P0)) fail("wrong-value",fmt("%s: %s gives %g although nothing better than %g exists",in->name.c_str(),what,V,P0));
      mark(dbits(V));
   };
   int steps = 1 + (int)draw(5);
   if (chance(1,2000) && !in->shaped && in->nodeLevel && in->nbSolutions() < 200) {          // rebuilt very often
      steps = oneOf(std::vector<int>{255,256,257,300}); if (chance(1,60)) steps = 65600;
      count("probe.rebuilt-often");
      Subs q(in->make(&A,&b)); A.budget = 1000000000;
      for(int k=0;k<steps;k++) {
         double P0 = b.getPrimal();
         dd->apply(q.open[0],b);
         judge(dd,in->opt,in->feasible,{},P0,"apply at the root");
         b.setPrimal(in->none()); h.base = in->none(); { OffArena o; h.vals.clear(); h.labels.clear(); }
      }
      steps = 2;
   }
   std::unique_ptr<Subs> s;
   AbstractDD::Ptr rx; Relaxed rstrat(1 + (int)draw(3));
   for(int k=0;k<steps;k++) {
      double P0 = b.getPrimal();
      int op = (int)draw(in->nodeLevel ? 5 : 3);
      if (op == 0) {                       // plain computation on a fresh copy
         auto d = dd->duplicate(); Exact st; d->setStrategy(&st);
         if (chance(1,4)) {
            A.throwIn = 1 + draw(40);
            bool threw = false;
            try { d->compute(b); } catch(Boom&) { threw = true; count("interruptions"); }
            A.throwIn = -1;
            if (threw) { d->reset(); note("  (interrupted, reset, started again)"); d->compute(b); }
         } else d->compute(b);
         judge(d,in->opt,in->feasible,{},P0,"compute");
         if (chance(1,2)) { d->reset(); d->compute(b); judge(d,in->opt,in->feasible,{},P0,"compute after reset"); count("recomputed"); }
      } else if (op <= 2 || !in->nodeLevel) {   // as root of a search
         if (!s) { s = std::make_unique<Subs>(in->make(&A,&b)); }
         auto root = s->open[0];
         maybeInterrupt(A,dd,root,b); P0 = b.getPrimal();
         size_t ann = h.vals.size();
         bool r = dd->apply(root,b);
         judge(dd,in->opt,in->feasible,{},P0,"apply at the root");
         if (r != (in->feasible && in->better(in->opt,P0))) fail("apply-result",fmt("%s: apply says %d",in->name.c_str(),(int)r));
         if (r && (b.getPrimal() != in->opt || h.vals.size() != ann+1)) fail("not-recorded",fmt("%s: the optimum %g was not announced (primal %g)",in->name.c_str(),in->opt,b.getPrimal()));
         if (!r && b.getPrimal() != P0) fail("not-recorded","the incumbent changed without an improvement");
         count("recomputed");
      } else {                             // as root of a subproblem
         if (!s) s = std::make_unique<Subs>(in->make(&A,&b));
         if (!rx) { rx = in->make(&A,&b)->duplicate(); rx->setStrategy(&rstrat); }
         auto from = s->open[draw((uint32_t)s->open.size())];
         double togo; bool feas = in->togo(from,togo);
         double best = from->getBound() + togo;
         dd->apply(from,b);
         judge(dd,best,feas,labelsOf(from),P0,"apply at a subproblem");
         Bounds tmp; tmp.attach(dd);
         if (rx->apply(from,tmp)) for(auto n : rx->computeCutSet()) { if (s->open.size() > 20) break; auto c = s->pool->cloneNode(n); if (c) s->open.push_back(c); }
      }
      if (chance(1,3)) { b.setPrimal(in->none()); h.base = in->none(); }
   }
   if (A.calls > 20) nontrivial();
   mark(A.trace);
}
static Reg r08("C08",c08);
