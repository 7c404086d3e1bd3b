// Problem instances: what the engine runs (library types, library closures) and, independently,
// what the right answers are (plain integers, exhaustive dynamic programming).
#pragma once
#include "sim.hpp"
#include "codd.hpp"
#include <memory>
#include <cmath>

namespace sim {

enum Kind { K_INIT,K_TARGET,K_LABELS,K_NEXT,K_COST,K_MERGE,K_SINK,K_LOCAL,K_DOM,K_NB };

// One user of the library: all its model closures report here.
struct Actor {
   uint64_t trace = 7;          // hash of the sequence of model calls
   uint64_t calls = 0;
   uint64_t byKind[K_NB] = {0};
   uint64_t budget = 3000000;
   int64_t  throwIn = -1;       // countdown over calls that may throw
   uint64_t threw = 0;
   bool     silenced = false;   // after a stop: no call is legal
   std::function<void(int kind,uint64_t h,int lbl)> onCall;
   void call(int kind,uint64_t h,int lbl = 0);
};

extern long liveStates;         // model states alive anywhere (construction minus destruction)
extern int  hashMode;           // quality of the state hash functions
struct Live {
   Live() noexcept { ++liveStates; }
   Live(const Live&) noexcept { ++liveStates; }
   Live& operator=(const Live&) noexcept { return *this; }
   ~Live() { --liveStates; }
};
inline size_t squash(uint64_t h) {
   switch(hashMode) {
      case 1: return 5;                       // everything collides
      case 2: return (h*0x9E3779B97F4A7C15ull) >> 62;  // four values
      case 3: return ~(size_t)0 - ((h*0x9E3779B97F4A7C15ull)>>60); // huge values
      default: return (size_t)(h*0x9E3779B97F4A7C15ull);
   }
}

struct Inst {
   bool maxi = true, useLocal = false, useDom = false, universalMerge = false, nodeLevel = false, primalDependent = false;
   bool earlySink = false;
   bool feasible = false; double opt = 0;
   int shaped = 0;
   uint64_t budget() const { return shaped ? 60000000 : 3000000; }
   std::string name;
   virtual ~Inst() {}
   virtual AbstractDD::Ptr make(Actor* a,const Bounds* b) const = 0;
   virtual bool check(const std::vector<int>& l,double& v,std::string& why) const = 0;
   // node level (models that support it)
   virtual bool   walk(const std::vector<int>& l,double& v,uint64_t& st) const { return false; }
   virtual uint64_t stateOf(ANode::Ptr n) const { return 0; }
   virtual bool   togo(ANode::Ptr n,double& v) const { return false; }       // best completion of the state(s)
   virtual uint64_t nbSolutions() const { return 0; }
   bool   better(double a,double b) const { return maxi ? a > b : a < b; }
   bool   betterEQ(double a,double b) const { return maxi ? a >= b : a <= b; }
   double none() const { return maxi ? -2147483647.0 : 2147483647.0; }       // "no solution known"
   double answer() const { return feasible ? opt : none(); }
};
typedef std::unique_ptr<Inst> InstP;

struct GenCfg {
   int  size = 1;              // 0 tiny, 1 small, 2 larger
   bool allowDom = true, allowLocal = true, tableOnly = false, forceUniversal = false, allowPrimalDependent = true, nodeOnly = false;
   int  maxi = -1;
   int  shape = 0;             // 1: many states and subproblems, 2: many layers, 3: wide layers, long frontier
   bool hard = false;          // instances that are not solved at the root
};
InstP drawInstance(const GenCfg& c);
GenCfg drawCfg(int wide = 0);   // size and difficulty; wide: how many in 20000 runs get a fan
int drawWidth();                // small for hard runs
extern bool hardRun;

// A solution callback plus history: the checks that hold for every announced incumbent.
struct Announce { std::vector<int> labels; double primal; };

std::string show(const std::vector<int>& v);
}
