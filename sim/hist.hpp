// History of the incumbents a search announces, and the checks that hold for every one of them.
#pragma once
#include "models.hpp"
#include <iostream>

namespace sim {

struct History {
   const Inst* in; Bounds* b;
   std::vector<double> vals; std::vector<std::vector<int>> labels;
   double base = 0; bool baseSet = false;       // value any announcement has to beat
   int64_t throwAt = -1;                        // the throwAt-th announcement from now throws
   bool silenced = false;
   int64_t lastAt = 0;                          // simulated time of the last announcement
   History(const Inst* i,Bounds* bb) : in(i),b(bb) {}
   void arm() { b->onSolution([this](const std::vector<int>& l) { see(l); }); }
   void see(const std::vector<int>& l) {
      OffArena o;
      std::string why; double v;
      lastAt = monoNs;
      if (silenced) fail("announce-after-end","an incumbent was announced after the search had been told to stop");
      if (!in->check(l,v,why)) fail("bogus-incumbent",fmt("%s: announced %s which is not a solution: %s",in->name.c_str(),show(l).c_str(),why.c_str()));
      if (v != b->getPrimal()) fail("incumbent-value",fmt("%s: announced %s worth %g while the primal bound says %g",in->name.c_str(),show(l).c_str(),v,b->getPrimal()));
      if (baseSet && !in->better(v,base)) fail("no-improvement",fmt("%s: announced a solution worth %g although %g was known",in->name.c_str(),v,base));
      if (in->feasible && in->better(v,in->opt)) fail("better-than-optimal",fmt("%s: announced value %g, the optimum is %g",in->name.c_str(),v,in->opt));
      base = v; baseSet = true;
      vals.push_back(v); labels.push_back(l);
      note(fmt("  announced %s worth %g",show(l).c_str(),v));
      mark(dbits(v)); for(int x : l) mark((uint64_t)x);
      if (throwAt > 0 && --throwAt == 0) { count("fault.callback-exception"); throw Boom(); }
   }
   uint64_t hash() const { uint64_t h = 3; for(size_t i=0;i<vals.size();i++) { h = mix(h,dbits(vals[i])); for(int x : labels[i]) h = mix(h,(uint64_t)x); h = mix(h,77); } return h; }
};

// How the bounds object starts: returns the value a completed search must end with.
inline double drawStart(const Inst& in,Bounds& b,const AbstractDD::Ptr& dd,History& h) {
   double slack = oneOf(std::vector<double>{1,2,5,0.5,1000000});
   int mode = (int)draw(8);
   double worse = in.feasible ? (in.maxi ? in.opt - slack : in.opt + slack) : 0;
   double over  = in.feasible ? (in.maxi ? in.opt + slack : in.opt - slack) : 0;
   switch(mode) {
      case 0: case 1: case 2: case 3: return in.answer();
      case 4: b = Bounds(dd); h.base = in.none(); h.baseSet = true; note("bounds built from the model"); return in.answer();
      case 5: b.setPrimal(worse); h.base = worse; h.baseSet = true; note(fmt("start with primal %g (worse than the optimum)",worse)); count("start.worse"); return in.feasible ? in.opt : worse;
      case 6: b.setPrimal(in.feasible ? in.opt : 0); h.base = b.getPrimal(); h.baseSet = true; note("start with the optimal value"); count("start.equal"); return b.getPrimal();
      default: b.setPrimal(over); h.base = over; h.baseSet = true; note(fmt("start with primal %g (beyond the optimum)",over)); count("start.beyond"); return over;
   }
}
}
