#include "models.hpp"
#include <bit>
#include <cstring>

namespace sim {
long liveStates = 0;
int hashMode = 0;
bool hardRun = false;
static int shapeRun = 0, shapeWidth = 0;

void Actor::call(int kind,uint64_t h,int lbl) {
   if (silenced) fail("call-after-stop",fmt("model function %d was called after the search had been told to stop",kind));
   if (++calls > budget) fail("no-progress",fmt("the search made more than %lu model calls on a tiny instance",(unsigned long)budget));
   byKind[kind]++;
   trace = mix(trace,mix(mix((uint64_t)kind,h),(uint64_t)(uint32_t)lbl));
   if (clockCfg.callStepNs) advance(clockCfg.callStepNs);
   if (onCall) onCall(kind,h,lbl);
   yieldPoint(1);
   if (throwIn > 0 && --throwIn == 0) {
      threw++;
      count("fault.model-exception");
      throw Boom();
   }
}
std::string show(const std::vector<int>& v) {
   std::string s = "[";
   for(size_t i=0;i<v.size();i++) s += (i?" ":"") + std::to_string(v[i]);
   return s + "]";
}
} // namespace sim

using namespace sim;

// ====================================================================== random layered systems
struct TabS { int layer; uint64_t set; Live live;
   friend std::ostream& operator<<(std::ostream& os,const TabS& s) { return os << "<" << s.layer << "|" << s.set << ">"; }
};
template<> struct std::equal_to<TabS> { bool operator()(const TabS& a,const TabS& b) const { return a.layer == b.layer && a.set == b.set; } };
template<> struct std::hash<TabS> { std::size_t operator()(const TabS& s) const noexcept { return squash((uint64_t)s.layer*1000003u ^ s.set); } };

template <class T> struct Grid {            // [layer][atom]([label])
   std::vector<T> v; int w1 = 1, w2 = 1;
   void shape(int a,int b,int c = 1) { w1 = b; w2 = c; v.assign((size_t)a*b*c,T()); }
   T& at(int l,int a,int d = 0) { return v[((size_t)l*w1 + a)*w2 + d]; }
   const T& at(int l,int a,int d = 0) const { return v[((size_t)l*w1 + a)*w2 + d]; }
};
struct Table : Inst {
   static constexpr int MXK = 48;
   int L=1,D=1; std::vector<int> K; std::vector<int> lid;
   Grid<short> nxt; Grid<double> cost,stopCost,go,slackB,slackD; Grid<char> stop,gof;
   double sinkSlack=0;
   int mergeMode=0,domMode=0; bool looseLabels=false;
   uint64_t nsol=0;
   bool isSink(const TabS& s) const { return s.layer == L; }
   int labIdx(int l) const { for(int i=0;i<=D;i++) if (lid[i]==l) return i; return -1; }
   bool can(int l,int a,int d) const { return d < D ? nxt.at(l,a,d) >= 0 : stop.at(l,a); }
   double val(int l,int a,int d) const { return d < D ? cost.at(l,a,d) : stopCost.at(l,a); }
   double setGo(const TabS& s,bool& f) const {
      if (isSink(s)) { f = true; return 0; }
      f = false; double b = none();
      for(int a=0;a<K[s.layer];a++) if (s.set>>a & 1 && gof.at(s.layer,a)) { if (!f || better(go.at(s.layer,a),b)) b = go.at(s.layer,a); f = true; }
      return b;
   }
   TabS fInit() const { return TabS{0,1}; }
   TabS fTarget() const { return TabS{L,1}; }
   GNSet fLabels(const TabS& s) const {
      GNSet r;
      for(int d=0;d<=D;d++) {
         bool ok = false;
         for(int a=0;a<K[s.layer] && !ok;a++) if (s.set>>a & 1) ok = can(s.layer,a,d);
         if (ok || (looseLabels && d < D)) r.insert(lid[d]);
      }
      return r;
   }
   std::optional<TabS> fNext(const TabS& s,int lbl) const {
      int d = labIdx(lbl);
      if (d < 0) fail("foreign-label",fmt("the engine asked for label %d which the model never offered",lbl));
      uint64_t ns = 0; bool any = false;
      for(int a=0;a<K[s.layer];a++) if (s.set>>a & 1 && can(s.layer,a,d)) { any = true; if (d < D) ns |= 1ull<<nxt.at(s.layer,a,d); }
      if (!any) return std::nullopt;
      if (d == D || s.layer == L-1) return fTarget();
      return TabS{s.layer+1,ns};
   }
   double fCost(const TabS& s,int lbl) const {
      int d = labIdx(lbl); bool f=false; double b = none();
      for(int a=0;a<K[s.layer];a++) if (s.set>>a & 1 && can(s.layer,a,d)) { double v = val(s.layer,a,d); if (!f || better(v,b)) b = v; f = true; }
      return f ? b : 0;
   }
   std::optional<TabS> fMerge(const TabS& a,const TabS& b) const {
      if (a.layer != b.layer) return std::nullopt;
      uint64_t u = a.set | b.set;
      switch(mergeMode) {
         case 1: if ((std::countr_zero(a.set)^std::countr_zero(b.set))&1) return std::nullopt; break;
         case 2: return std::nullopt;
         case 3: if (std::popcount(u) >= 3) u = (1ull<<K[a.layer])-1; break;
         case 4: u = std::bit_floor(u); break;      // the greater atom stands for both (see gen)
      }
      return TabS{a.layer,u};
   }
   double fLocal(const TabS& s,LocalContext c) const {
      if (isSink(s)) return maxi ? sinkSlack : -sinkSlack;
      bool f = false; double b = 0;
      for(int a=0;a<K[s.layer];a++) if (s.set>>a & 1) {
         double sl = (c == BBCtx ? slackB : slackD).at(s.layer,a);
         double v = (gof.at(s.layer,a) ? go.at(s.layer,a) : 0) + (maxi ? sl : -sl);
         if (!f || better(v,b)) b = v;
         f = true;
      }
      return b;
   }
   bool fDom(const TabS& a,const TabS& b) const {
      if (domMode == 3) return a.layer == b.layer && !isSink(a) && (a.set & b.set) == b.set;
      if ((domMode == 1 || domMode == 5) && (a.layer != b.layer || isSink(a))) return false;
      if (domMode >= 4 && mix((uint64_t)a.layer<<48 ^ a.set,(uint64_t)b.layer<<40 ^ b.set) % 3 == 0) return false;   // an incomplete, hence not transitive, test is sound too
      bool fa,fb; double ga = setGo(a,fa), gb = setGo(b,fb);
      if (!fb) return true;
      return fa && betterEQ(ga,gb);
   }
   AbstractDD::Ptr make(Actor* A,const Bounds*) const override {
      A->budget = std::max(A->budget,budget());
      const Table* t = this;
      auto H = [](const TabS& s) { return (uint64_t)s.layer<<48 ^ s.set; };
      std::function<TabS()> init = [=] { A->call(K_INIT,0); return t->fInit(); };
      std::function<TabS()> target = [=] { A->call(K_TARGET,0); return t->fTarget(); };
      std::function<GNSet(const TabS&)> lgf = [=](const TabS& s) { A->call(K_LABELS,H(s)); return t->fLabels(s); };
      std::function<std::optional<TabS>(const TabS&,int)> stf = [=](const TabS& s,int l) { A->call(K_NEXT,H(s),l); return t->fNext(s,l); };
      std::function<double(const TabS&,int)> scf = [=](const TabS& s,int l) { A->call(K_COST,H(s),l); return t->fCost(s,l); };
      std::function<std::optional<TabS>(const TabS&,const TabS&)> smf = [=](const TabS& a,const TabS& b) { A->call(K_MERGE,mix(H(a),H(b))); return t->fMerge(a,b); };
      std::function<bool(const TabS&)> eqs = [=](const TabS& s) { A->call(K_SINK,H(s)); return t->isSink(s); };
      std::function<double(const TabS&,LocalContext)> loc = nullptr;
      if (useLocal) loc = [=](const TabS& s,LocalContext c) { A->call(K_LOCAL,H(s),c); return t->fLocal(s,c); };
      std::function<bool(const TabS&,const TabS&)> dom = nullptr;
      if (useDom) dom = [=](const TabS& a,const TabS& b) { A->call(K_DOM,mix(H(a),H(b))); return t->fDom(a,b); };
      GNSet labels; for(int i=0;i<=D;i++) labels.insert(lid[i]);
      if (maxi)
         return DD<TabS,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,labels,loc,dom);
      else
         return DD<TabS,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,labels,loc,dom);
   }
   // plain walk over atoms
   bool walkAtoms(const std::vector<int>& l,double& v,int& layer,int& atom,std::string& why) const {
      layer = 0; atom = 0; v = 0;
      for(size_t i=0;i<l.size();i++) {
         if (layer == L) { why = "labels continue past the end of the solution"; return false; }
         int d = labIdx(l[i]);
         if (d < 0 || !can(layer,atom,d)) { why = fmt("decision %d (label %d) is not allowed there",(int)i,l[i]); return false; }
         v += val(layer,atom,d);
         if (d == D || layer == L-1) { layer = L; atom = 0; }
         else { atom = nxt.at(layer,atom,d); layer++; }
      }
      return true;
   }
   bool check(const std::vector<int>& l,double& v,std::string& why) const override {
      int y,a;
      if (!walkAtoms(l,v,y,a,why)) return false;
      if (y != L) { why = "labels do not reach the end"; return false; }
      return true;
   }
   bool walk(const std::vector<int>& l,double& v,uint64_t& st) const override {
      int y,a; std::string why;
      if (!walkAtoms(l,v,y,a,why)) return false;
      st = (uint64_t)y<<48 ^ (y == L ? 1ull : 1ull<<a);
      return true;
   }
   uint64_t stateOf(ANode::Ptr n) const override { auto& s = static_cast<const Node<TabS>*>(n.get())->get(); return (uint64_t)s.layer<<48 ^ s.set; }
   bool togo(ANode::Ptr n,double& v) const override { bool f; v = setGo(static_cast<const Node<TabS>*>(n.get())->get(),f); return f; }
   uint64_t nbSolutions() const override { return nsol; }
   void gen(const GenCfg& c) {
      nodeLevel = true;
      maxi = c.maxi >= 0 ? c.maxi : draw(2) == 0;
      int mxL = c.size == 0 ? 3 : c.size == 1 ? 6 : 9, mxK = c.size == 0 ? 3 : c.size == 1 ? 6 : 9, mxD = c.size == 0 ? 3 : c.size == 1 ? 4 : 5;
      L = 1 + draw(mxL); D = 1 + draw(mxD);
      if (c.hard) { L = 4 + (int)draw(c.size == 2 ? 6 : 3); mxK = c.size == 2 ? 9 : 6; D = 2 + (int)draw(3); }
      if (c.shape == 1) { L = 9 + (int)draw(6); mxK = MXK; D = 3 + (int)draw(4); }         // many states, many subproblems
      if (c.shape == 2) { L = oneOf(std::vector<int>{40,100,260,300,140}) + (int)draw(20); D = 1 + (int)draw(3); }   // many layers
      lid.assign(D+1,0); K.assign(L,1);
      int base = oneOf(std::vector<int>{0,1,60,63,100}); if (chance(1,60)) { base = oneOf(std::vector<int>{32768,40000,66000}); count("probe.large-labels"); } int stride = oneOf(std::vector<int>{1,2,17,64});
      for(int i=0;i<=D;i++) lid[i] = base + i*stride;
      if (chance(1,4)) { int t = lid[D]; for(int i=D;i>0;i--) lid[i] = lid[i-1]; lid[0] = t; std::swap(lid[0],lid[D]); for(int i=0;i<D;i++) lid[i] = base + (i+1)*stride; lid[D] = base; }   // stop label first
      int costMode = draw(8); int density = oneOf(std::vector<int>{8,10,7,5}); int stopD = oneOf(std::vector<int>{0,0,2,5});
      useLocal = c.allowLocal && chance(c.hard ? 1 : 2,5);
      useDom = c.allowDom && chance(1,c.hard ? 6 : 3);
      mergeMode = c.forceUniversal ? (int)oneOf(std::vector<int>{0,3,4}) : (int)oneOf(std::vector<int>{0,0,3,1,2,4});
      universalMerge = mergeMode == 0 || mergeMode >= 3;
      domMode = useDom ? (int)oneOf(std::vector<int>{1,3,2,4,5}) : 0;
      looseLabels = chance(1,4);
      int slackMode = draw(4);
      if (c.shape == 2) for(int k=0,n=(int)draw(6);k<n;k++) { int at = 1 + (int)draw(L-1); for(int i=at;i<std::min(L,at+1+(int)draw(2));i++) K[i] = 2 + (int)draw(3); }
      else if (c.shape == 1) for(int l=1;l<L;l++) K[l] = MXK/2 + (int)draw(MXK/2+1);
      else for(int l=1;l<L;l++) K[l] = c.hard ? std::max(3,mxK-3) + (int)draw((uint32_t)(mxK - std::max(3,mxK-3) + 1)) : 1 + (int)draw(mxK);
      auto dc = [&]() -> double {
         switch(costMode) {
            case 0: return (double)pick(0,9);
            case 1: return (double)pick(0,24) - 6;
            case 2: return (double)pick(0,2);
            case 3: return 0.5*pick(0,40) - 3;
            case 5: return (double)pick(0,1<<24)/(1<<20) - 4;                     // many binary digits
            case 6: return (double)(pick(0,1800000000)/(L+1));                    // close to the limits of int
            case 7: return (double)pick(0,1000) / (1ll<<40) + pick(0,1);          // differences of a billionth and less
            default: return (double)(pick(0,2000000) - 300000)/(L > 40 ? 8 : 1);
         }
      };
      int mk = 1; for(int k : K) mk = std::max(mk,k);
      nxt.shape(L,mk,D); cost.shape(L,mk,D); stopCost.shape(L,mk); go.shape(L,mk); slackB.shape(L,mk); slackD.shape(L,mk); stop.shape(L,mk); gof.shape(L,mk);
      for(int l=0;l<L;l++) for(int a=0;a<K[l];a++) {
         for(int d=0;d<D;d++) {
            nxt.at(l,a,d) = (c.shape == 2 && d == 0) || (int)draw(10) < density ? (l == L-1 ? 0 : (short)draw(K[l+1])) : -1;
            cost.at(l,a,d) = nxt.at(l,a,d) >= 0 ? dc() : 0;
         }
         stop.at(l,a) = stopD && l < L-1 && (int)draw(10) < stopD;
         if (stop.at(l,a)) earlySink = true;
         stopCost.at(l,a) = stop.at(l,a) ? dc()*(L-l) : 0;
         slackB.at(l,a) = slackD.at(l,a) = 0;
         if (useLocal) {
            switch(slackMode) {
               case 0: break;                                       // perfect bounds
               case 1: slackB.at(l,a) = slackD.at(l,a) = pick(0,6); break;
               case 2: slackD.at(l,a) = pick(0,20); slackB.at(l,a) = pick(0,6); break;
               case 3: slackD.at(l,a) = slackB.at(l,a) = 30; break;
            }
         }
      }
      if (mergeMode == 4)      // ordered atoms: a greater one allows all that a smaller one does, at no worse cost, and leads at least as high
         for(int l=0;l<L;l++) for(int a=1;a<K[l];a++) {
            for(int d=0;d<D;d++) if (nxt.at(l,a-1,d) >= 0) {
               if (nxt.at(l,a,d) < 0 || better(cost.at(l,a-1,d),cost.at(l,a,d))) cost.at(l,a,d) = cost.at(l,a-1,d);
               nxt.at(l,a,d) = std::max(nxt.at(l,a,d),nxt.at(l,a-1,d));
            }
            if (stop.at(l,a-1)) { if (!stop.at(l,a) || better(stopCost.at(l,a-1),stopCost.at(l,a))) stopCost.at(l,a) = stopCost.at(l,a-1); stop.at(l,a) = true; }
         }
      if (useLocal && chance(1,4)) sinkSlack = 3;
      // reference: exhaustive backward dynamic programming over plain atoms
      Grid<uint64_t> ns; ns.shape(L,mk);
      for(int l=L-1;l>=0;l--) for(int a=0;a<K[l];a++) {
         gof.at(l,a) = false; go.at(l,a) = none(); ns.at(l,a) = 0;
         for(int d=0;d<=D;d++) if (can(l,a,d)) {
            bool f = true; double g = 0; uint64_t m = 1;
            if (d < D && l < L-1) { f = gof.at(l+1,nxt.at(l,a,d)); g = go.at(l+1,nxt.at(l,a,d)); m = ns.at(l+1,nxt.at(l,a,d)); }
            ns.at(l,a) += m;
            if (f && (!gof.at(l,a) || better(val(l,a,d)+g,go.at(l,a)))) { gof.at(l,a) = true; go.at(l,a) = val(l,a,d)+g; }
         }
      }
      feasible = gof.at(0,0); opt = go.at(0,0); nsol = ns.at(0,0);
      name = fmt("table%s(%s,L=%d,D=%d,merge=%d,local=%d,dom=%d,early=%d,answer=%g)",c.shape == 1 ? "-big" : c.shape == 2 ? "-long" : "",maxi?"max":"min",L,D,mergeMode,(int)useLocal,domMode,(int)earlySink,answer());
      if (verbose()) {
         note(name);
         for(int l=0;l<L;l++) for(int a=0;a<K[l];a++) {
            std::string s = fmt("  layer %d atom %d:",l,a);
            for(int d=0;d<D;d++) if (nxt.at(l,a,d) >= 0) s += fmt(" --%d(%g)-->%d",lid[d],cost.at(l,a,d),l==L-1 ? -1 : nxt.at(l,a,d));
            if (stop.at(l,a)) s += fmt(" --%d(%g)-->END",lid[D],stopCost.at(l,a));
            s += gof.at(l,a) ? fmt("  togo=%g",go.at(l,a)) : "  dead";
            note(s);
         }
      }
   }
};

// ====================================================================== knapsack
struct KnS { int n,c; Live live; friend std::ostream& operator<<(std::ostream& os,const KnS& s) { return os << "<" << s.n << ',' << s.c << ">"; } };
template<> struct std::equal_to<KnS> { bool operator()(const KnS& a,const KnS& b) const { return a.n == b.n && a.c == b.c; } };
template<> struct std::hash<KnS> { std::size_t operator()(const KnS& s) const noexcept { return squash((uint64_t)s.n<<32 ^ (uint32_t)s.c); } };
struct Knap : Inst {
   int n,capa,tol; int w[32],p[32]; std::vector<int> togoT;          // togoT[i*(capa+1)+r]: best from item i on with capacity r
   static uint64_t pack(int n,int c) { return (uint64_t)n<<48 ^ (uint32_t)c; }
   bool walk(const std::vector<int>& l,double& v,uint64_t& st) const override {
      v = 0; int rc = capa; if ((int)l.size() > n) return false;
      for(size_t i=0;i<l.size();i++) { if (l[i] != 0 && l[i] != 1) return false; rc -= l[i]*w[i]; v += l[i]*p[i]; if (rc < 0) return false; }
      st = (int)l.size() == n ? pack(n,0) : pack((int)l.size(),rc);
      return true;
   }
   uint64_t stateOf(ANode::Ptr nd) const override { auto& s = static_cast<const Node<KnS>*>(nd.get())->get(); return pack(s.n,s.c); }
   bool togo(ANode::Ptr nd,double& v) const override { auto& s = static_cast<const Node<KnS>*>(nd.get())->get(); v = s.n >= n ? 0 : togoT[(size_t)s.n*(capa+1) + s.c]; return true; }
   double frac(int i,int rc) const { double v = 0; for(;i<n;i++) if (w[i] <= rc) { rc -= w[i]; v += p[i]; } else { v += (long)rc*p[i]/w[i]; break; } return v; }
   AbstractDD::Ptr make(Actor* A,const Bounds*) const override {
      A->budget = std::max(A->budget,budget());
      const Knap* k = this;
      auto H = [](const KnS& s) { return pack(s.n,s.c); };
      std::function<KnS()> init = [=] { A->call(K_INIT,0); return KnS{0,k->capa}; };
      std::function<KnS()> target = [=] { A->call(K_TARGET,0); return KnS{k->n,0}; };
      std::function<Range(const KnS&)> lgf = [=](const KnS& s) { A->call(K_LABELS,H(s)); return Range::close(0,s.c >= k->w[s.n]); };
      std::function<std::optional<KnS>(const KnS&,int)> stf = [=](const KnS& s,int l) -> std::optional<KnS> { A->call(K_NEXT,H(s),l); if (s.n < k->n-1) return KnS{s.n+1,s.c - l*k->w[s.n]}; return KnS{k->n,0}; };
      std::function<double(const KnS&,int)> scf = [=](const KnS& s,int l) { A->call(K_COST,H(s),l); return (double)k->p[s.n]*l; };
      std::function<std::optional<KnS>(const KnS&,const KnS&)> smf = [=](const KnS& a,const KnS& b) -> std::optional<KnS> { A->call(K_MERGE,mix(H(a),H(b)));
         if (a.n != b.n || std::abs(a.c-b.c) > k->tol) return std::nullopt; return KnS{a.n,std::max(a.c,b.c)}; };
      std::function<bool(const KnS&)> eqs = [=](const KnS& s) { A->call(K_SINK,H(s)); return s.n == k->n; };
      std::function<double(const KnS&,LocalContext)> loc = nullptr;
      if (useLocal) loc = [=](const KnS& s,LocalContext c) { A->call(K_LOCAL,H(s),c); return k->frac(s.n,s.c); };
      std::function<bool(const KnS&,const KnS&)> dom = nullptr;
      if (useDom) dom = [=](const KnS& a,const KnS& b) { A->call(K_DOM,mix(H(a),H(b))); return a.n <= b.n && a.c >= b.c; };
      return DD<KnS,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,1),loc,dom);
   }
   bool check(const std::vector<int>& l,double& v,std::string& why) const override {
      v = 0; int rc = capa;
      if ((int)l.size() != n) { why = fmt("%zu decisions for %d items",l.size(),n); return false; }
      for(int i=0;i<n;i++) { if (l[i] != 0 && l[i] != 1) { why = "label not 0/1"; return false; } rc -= l[i]*w[i]; v += l[i]*p[i]; }
      if (rc < 0) { why = "capacity exceeded"; return false; }
      return true;
   }
   void gen(const GenCfg& c) {
      maxi = true; n = c.hard ? 6 + (int)draw(6) : 1 + (int)draw(c.size == 0 ? 4 : c.size == 1 ? 8 : 11);
      if (c.shape) n = 13 + (int)draw(6);
      for(int i=0;i<n;i++) { w[i] = c.shape ? pick(20,99) : pick(1,9); p[i] = c.shape ? w[i]*2 + pick(0,7) : pick(1,15); }
      for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if (p[j]*w[i] > p[i]*w[j]) { std::swap(p[i],p[j]); std::swap(w[i],w[j]); }
      capa = pick(0,30); if (c.shape) capa = n*(15 + (int)draw(20)); tol = oneOf(std::vector<int>{50,1,0,5}); if (c.shape && tol) tol = tol == 5 ? 40 : 10000000; universalMerge = tol >= 50;
      useLocal = c.allowLocal && chance(1,c.shape ? 5 : 2); useDom = c.allowDom && chance(1,c.shape ? 4 : 2);
      feasible = true; opt = 0;
      std::vector<int> best(capa+1,0);                    // best[r]: capacity r, items so far
      for(int i=0;i<n;i++) for(int r=capa;r>=w[i];r--) best[r] = std::max(best[r],best[r-w[i]] + p[i]);
      opt = best[capa];
      if (c.nodeOnly) {
         nodeLevel = true; togoT.assign((size_t)(n+1)*(capa+1),0);
         for(int i=n-1;i>=0;i--) for(int r=0;r<=capa;r++) { int x = togoT[(size_t)(i+1)*(capa+1)+r]; if (r >= w[i]) x = std::max(x,p[i] + togoT[(size_t)(i+1)*(capa+1)+r-w[i]]); togoT[(size_t)i*(capa+1)+r] = x; }
      }
      name = fmt("knapsack(n=%d,capa=%d,tol=%d,local=%d,dom=%d,answer=%g)",n,capa,tol,(int)useLocal,(int)useDom,opt);
      if (verbose()) { std::string s = name; for(int i=0;i<n;i++) s += fmt(" (w%d p%d)",w[i],p[i]); note(s); }
   }
};

// ====================================================================== fans: wide layers, long frontiers
struct FanS { int n,x; Live live; friend std::ostream& operator<<(std::ostream& os,const FanS& s) { return os << "<" << s.n << ',' << s.x << ">"; } };
template<> struct std::equal_to<FanS> { bool operator()(const FanS& a,const FanS& b) const { return a.n == b.n && a.x == b.x; } };
template<> struct std::hash<FanS> { std::size_t operator()(const FanS& s) const noexcept { return squash((uint64_t)s.n<<32 ^ (uint32_t)s.x); } };
struct Fan : Inst {          // F0 choices, then F1, then 2, then 3; the one good leaf is hidden; x = -1 stands for any state of its layer
   static constexpr int R = 2000;
   int F0=1,F1=1,good=0,goodL=0; uint64_t salt=0; std::vector<int> best2;      // best2[i]: best from state i of layer 1
   int fan(int n) const { return n == 0 ? F0 : n == 1 ? F1 : n == 2 ? 2 : 3; }
   int gain(int n,int x,int l) const {
      if (n == 0) return (int)(mix(salt,l) % 50);
      if (n == 2) return x < 0 ? 1300 : 0;         // what was merged looks better than anything really is
      if (x < 0) return n == 1 ? 1000 : R;
      if (n == 1) return (int)(mix(salt+1,(uint64_t)x*F1+l) % 1000);
      return x == good && l == goodL ? R : (int)(mix(salt+2,(uint64_t)x*3+l) % 100);
   }
   int goOn(int n,int x) const {
      if (n == 4) return 0;
      if (n == 3) { int b = 0; for(int l=0;l<3;l++) b = std::max(b,gain(3,x,l)); return b; }
      if (n == 2) return std::max(goOn(3,2*x),goOn(3,2*x+1));
      if (n == 1) return best2[x];
      int b = 0; for(int l=0;l<F0;l++) b = std::max(b,gain(0,0,l) + best2[l]);
      return b;
   }
   static uint64_t pack(int n,int x) { return (uint64_t)n<<48 ^ (uint32_t)x; }
   double sg(int v) const { return maxi ? v : -v; }
   static int nextX(int x,int l,int fan) { return x < 0 ? -1 : x*fan + l; }
   AbstractDD::Ptr make(Actor* A,const Bounds*) const override {
      A->budget = std::max(A->budget,budget());
      const Fan* k = this;
      auto H = [](const FanS& s) { return pack(s.n,s.x); };
      std::function<FanS()> init = [=] { A->call(K_INIT,0); return FanS{0,0}; };
      std::function<FanS()> target = [=] { A->call(K_TARGET,0); return FanS{4,0}; };
      std::function<Range(const FanS&)> lgf = [=](const FanS& s) { A->call(K_LABELS,H(s)); return Range::close(0,k->fan(s.n)-1); };
      std::function<std::optional<FanS>(const FanS&,int)> stf = [=](const FanS& s,int l) -> std::optional<FanS> { A->call(K_NEXT,H(s),l);
         if (s.n == 3) return FanS{4,0}; return FanS{s.n+1,nextX(s.x,l,k->fan(s.n))}; };
      std::function<double(const FanS&,int)> scf = [=](const FanS& s,int l) { A->call(K_COST,H(s),l); return k->sg(k->gain(s.n,s.x,l)); };
      std::function<std::optional<FanS>(const FanS&,const FanS&)> smf = [=](const FanS& a,const FanS& b) -> std::optional<FanS> { A->call(K_MERGE,mix(H(a),H(b)));
         if (a.n != b.n) return std::nullopt; return FanS{a.n,-1}; };
      std::function<bool(const FanS&)> eqs = [=](const FanS& s) { A->call(K_SINK,H(s)); return s.n == 4; };
      std::function<double(const FanS&,LocalContext)> loc = nullptr;
      if (useLocal) loc = [=](const FanS& s,LocalContext c) { A->call(K_LOCAL,H(s),c); return k->sg(s.n == 4 ? 0 : s.n <= 1 ? R + 2400 : s.x < 0 ? R + 1300 : R); };
      std::function<bool(const FanS&,const FanS&)> dom = nullptr;
      if (maxi)
         return DD<FanS,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,std::max(3,std::max(F0,F1))),loc,dom);
      else
         return DD<FanS,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,std::max(3,std::max(F0,F1))),loc,dom);
   }
   bool walk(const std::vector<int>& l,double& v,uint64_t& st) const override {
      if (l.size() > 4) return false;
      int x = 0, t = 0;
      for(size_t i=0;i<l.size();i++) { if (l[i] < 0 || l[i] >= fan((int)i)) return false; t += gain((int)i,x,l[i]); x = i == 3 ? 0 : nextX(x,l[i],fan((int)i)); }
      v = sg(t); st = pack((int)l.size(),x); return true;
   }
   bool check(const std::vector<int>& l,double& v,std::string& why) const override {
      uint64_t st;
      if (l.size() != 4 || !walk(l,v,st)) { why = "not a path of the fan"; return false; }
      return true;
   }
   uint64_t stateOf(ANode::Ptr nd) const override { auto& s = static_cast<const Node<FanS>*>(nd.get())->get(); return pack(s.n,s.x); }
   bool togo(ANode::Ptr nd,double& v) const override { auto& s = static_cast<const Node<FanS>*>(nd.get())->get(); v = sg(goOn(s.n,s.x)); return true; }
   void gen(const GenCfg& c) {
      nodeLevel = true; universalMerge = true; feasible = true;
      maxi = c.maxi >= 0 ? c.maxi : draw(2) == 0;
      int kind = oneOf(std::vector<int>{0,0,0,0,0,2,2,1});
      F0 = kind == 0 ? 96 + (int)draw(20) : kind == 1 ? 370 + (int)draw(30) : 4200 + (int)draw(800);
      F1 = kind == 0 ? 96 + (int)draw(20) : kind == 1 ? 370 + (int)draw(30) : 3;
      shapeWidth = std::max(F0,F1) + (int)draw(8); if (c.nodeOnly && chance(1,3)) shapeWidth = kind == 2 ? 300 : F0/2;     // (a search would widen from there one by one)
      salt = ((uint64_t)draw(1u<<30)<<30) ^ draw(1u<<30);
      useLocal = c.allowLocal && chance(1,4);
      int at = 0, top = -1;
      for(int i=0;i<40;i++) { int x = (int)draw((uint32_t)(F0*F1)); int g = gain(1,x/F1,x%F1); if (g < 350 && g > top) { top = g; at = x; } }     // not among those a restricted diagram keeps, yet not the very last
      good = at*2 + (int)draw(2); goodL = (int)draw(3);
      best2.assign(F0,0);
      for(int i=0;i<F0;i++) for(int j=0;j<F1;j++) best2[i] = std::max(best2[i],gain(1,i,j) + goOn(2,i*F1+j));
      opt = sg(goOn(0,0));
      name = fmt("fan(%s,%dx%d,local=%d,answer=%g)",maxi?"max":"min",F0,F1,(int)useLocal,opt);
      note(name);
   }
};

// ====================================================================== travelling salesman
struct TsS { GNSet s; int e,hops; Live live; friend std::ostream& operator<<(std::ostream& os,const TsS& m) { return os << "<" << m.s << ',' << m.e << ',' << m.hops << ">"; } };
template<> struct std::equal_to<TsS> { bool operator()(const TsS& a,const TsS& b) const { return a.e == b.e && a.hops == b.hops && a.s == b.s; } };
template<> struct std::hash<TsS> { std::size_t operator()(const TsS& v) const noexcept { return squash(std::hash<GNSet>{}(v.s) ^ (uint64_t)v.e<<24 ^ (uint64_t)v.hops<<40); } };
struct Tsp : Inst {
   int n; int id[12]; int d[12][12]; GNSet C;
   int ix(int l) const { for(int i=0;i<n;i++) if (id[i]==l) return i; return -1; }
   AbstractDD::Ptr make(Actor* A,const Bounds*) const override {
      A->budget = std::max(A->budget,budget());
      const Tsp* k = this;
      auto H = [](const TsS& s) { uint64_t h = (uint64_t)s.e<<32 ^ s.hops; for(auto v : s.s) h = mix(h,v); return h; };
      std::function<TsS()> init = [=] { A->call(K_INIT,0); return TsS{GNSet{k->id[0]},k->id[0],0}; };
      std::function<TsS()> target = [=] { A->call(K_TARGET,0); return TsS{k->C,k->id[0],k->n}; };
      std::function<GNSet(const TsS&)> lgf = [=](const TsS& s) { A->call(K_LABELS,H(s)); if (s.hops >= k->n-1) return GNSet{k->id[0]}; return k->C - s.s; };
      std::function<std::optional<TsS>(const TsS&,int)> stf = [=](const TsS& s,int l) -> std::optional<TsS> { A->call(K_NEXT,H(s),l);
         if (k->ix(l) < 0) fail("foreign-label",fmt("label %d was never offered",l));
         if (k->d[k->ix(s.e)][k->ix(l)] >= 1000) return std::nullopt;
         if (s.hops >= k->n-1) return TsS{k->C,k->id[0],k->n};
         return TsS{s.s | GNSet{l},l,s.hops+1}; };
      std::function<double(const TsS&,int)> scf = [=](const TsS& s,int l) { A->call(K_COST,H(s),l); return (double)k->d[k->ix(s.e)][k->ix(l)]; };
      std::function<std::optional<TsS>(const TsS&,const TsS&)> smf = [=](const TsS& a,const TsS& b) -> std::optional<TsS> { A->call(K_MERGE,mix(H(a),H(b)));
         if (a.e != b.e || a.hops != b.hops) return std::nullopt; return TsS{a.s & b.s,a.e,a.hops}; };
      std::function<bool(const TsS&)> eqs = [=](const TsS& s) { A->call(K_SINK,H(s)); return s.hops == k->n; };
      std::function<double(const TsS&,LocalContext)> loc = nullptr;
      if (useLocal) loc = [=](const TsS& s,LocalContext c) { A->call(K_LOCAL,H(s),c);
         double v = 0; if (s.hops == k->n) return v;
         // cheapest way out of the current city and out of hops-many further ones is at least (n-hops) * global min
         int mn = 1000000; for(int i=0;i<k->n;i++) for(int j=0;j<k->n;j++) if (i!=j) mn = std::min(mn,k->d[i][j]);
         return (double)(k->n - s.hops)*mn; };
      GNSet lab = C;
      return DD<TsS,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs)>::makeDD(init,target,lgf,stf,scf,smf,eqs,lab,loc);
   }
   bool check(const std::vector<int>& l,double& v,std::string& why) const override {
      v = 0; if ((int)l.size() != n) { why = fmt("tour of %zu legs over %d cities",l.size(),n); return false; }
      unsigned m = 0; int cur = 0;
      for(int i=0;i<n;i++) { int j = ix(l[i]); if (j < 0 || (m>>j&1) || d[cur][j] >= 1000 || (j == 0) != (i == n-1)) { why = fmt("leg %d to %d is illegal",i,l[i]); return false; } m |= 1u<<j; v += d[cur][j]; cur = j; }
      return true;
   }
   void gen(const GenCfg& c) {
      maxi = false; n = c.hard ? 5 + (int)draw(2) : 2 + (int)draw(c.size == 0 ? 3 : c.size == 1 ? 4 : 5);
      if (c.shape) n = 8 + (int)draw(2);
      int base = oneOf(std::vector<int>{0,60,62,120}), st = oneOf(std::vector<int>{1,3,40});
      for(int i=0;i<n;i++) { id[i] = base + i*st; C.insert(id[i]); }
      bool holes = chance(1,3);
      for(int i=0;i<n;i++) for(int j=0;j<n;j++) d[i][j] = (holes && chance(1,4)) ? 1000 : pick(0,20);
      useLocal = c.allowLocal && chance(1,3);
      // Held-Karp
      std::vector<std::vector<int>> best(1<<n,std::vector<int>(n,100000));
      best[1][0] = 0;
      for(int m=1;m<(1<<n);m++) for(int e=0;e<n;e++) if (best[m][e] < 100000)
         for(int j=1;j<n;j++) if (!(m>>j&1) && d[e][j] < 1000) best[m|1<<j][j] = std::min(best[m|1<<j][j],best[m][e]+d[e][j]);
      int r = 100000; for(int e=1;e<n;e++) if (best[(1<<n)-1][e] < 100000 && d[e][0] < 1000) r = std::min(r,best[(1<<n)-1][e]+d[e][0]);
      feasible = r < 100000; opt = r;
      name = fmt("tsp(n=%d,base=%d,stride=%d,local=%d,answer=%g)",n,base,st,(int)useLocal,answer());
      if (verbose()) { std::string s = name; for(int i=0;i<n;i++) { s += " |"; for(int j=0;j<n;j++) s += fmt(" %d",d[i][j]); } note(s); }
   }
};

// ====================================================================== maximum independent set (with early arrival at the sink)
struct MiS { GNSet sel; int n; Live live; friend std::ostream& operator<<(std::ostream& os,const MiS& m) { return os << "<" << m.sel << ',' << m.n << ">"; } };
template<> struct std::equal_to<MiS> { bool operator()(const MiS& a,const MiS& b) const { return a.n == b.n && a.sel == b.sel; } };
template<> struct std::hash<MiS> { std::size_t operator()(const MiS& v) const noexcept { return squash(std::hash<GNSet>{}(v.sel) ^ (uint64_t)v.n<<40); } };
struct Misp : Inst {
   int n,base; unsigned adj[24]; int w[24]; GNSet nb[24];
   AbstractDD::Ptr make(Actor* A,const Bounds*) const override {
      A->budget = std::max(A->budget,budget());
      const Misp* k = this; const int top = base + n;
      auto H = [](const MiS& s) { uint64_t h = (uint64_t)s.n; for(auto v : s.sel) h = mix(h,v); return h; };
      std::function<MiS()> init = [=] { A->call(K_INIT,0); GNSet u = {}; for(int i=0;i<k->n;i++) u.insert(k->base+i); return MiS{u,k->base}; };
      std::function<MiS()> target = [=] { A->call(K_TARGET,0); return MiS{GNSet{},top}; };
      std::function<Range(const MiS&)> lgf = [=](const MiS& s) { A->call(K_LABELS,H(s)); return Range::close(0,1); };
      std::function<std::optional<MiS>(const MiS&,int)> stf = [=](const MiS& s,int l) -> std::optional<MiS> { A->call(K_NEXT,H(s),l);
         if (s.n >= top) { if (s.sel.empty()) return MiS{GNSet{},top}; return std::nullopt; }
         if (!s.sel.contains(s.n) && l) return std::nullopt;
         GNSet out = s.sel; out.remove(s.n); if (l) out.diffWith(k->nb[s.n - k->base]);
         bool e = out.empty(); return MiS{std::move(out),e ? top : s.n+1}; };
      std::function<double(const MiS&,int)> scf = [=](const MiS& s,int l) { A->call(K_COST,H(s),l); return s.n >= top ? 0.0 : (double)l*k->w[s.n - k->base]; };
      std::function<std::optional<MiS>(const MiS&,const MiS&)> smf = [=](const MiS& a,const MiS& b) -> std::optional<MiS> { A->call(K_MERGE,mix(H(a),H(b))); return MiS{a.sel | b.sel,std::min(a.n,b.n)}; };
      std::function<bool(const MiS&)> eqs = [=](const MiS& s) { A->call(K_SINK,H(s)); return s.sel.size() == 0; };
      std::function<double(const MiS&,LocalContext)> loc = nullptr;
      if (useLocal) loc = [=](const MiS& s,LocalContext c) { A->call(K_LOCAL,H(s),c); double v = 0; for(auto i : s.sel) v += k->w[i - k->base]; return v; };
      return DD<MiS,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,1),loc);
   }
   bool check(const std::vector<int>& l,double& v,std::string& why) const override {
      v = 0; unsigned m = 0; if ((int)l.size() > n) { why = "too many decisions"; return false; }
      for(int i=0;i<(int)l.size();i++) if (l[i]) { if (adj[i] & m) { why = fmt("vertex %d conflicts",i); return false; } m |= 1u<<i; v += w[i]; }
      // decisions not taken: only legal when nothing eligible is left
      for(int i=(int)l.size();i<n;i++) { bool elig = true; for(int j=0;j<(int)l.size();j++) if (l[j] && (adj[j]>>i&1)) elig = false; if (elig) { why = fmt("stops although vertex %d is still open",i); return false; } }
      return true;
   }
   void gen(const GenCfg& c) {
      maxi = true; earlySink = true; universalMerge = true;
      n = c.hard ? 6 + (int)draw(5) : 1 + (int)draw(c.size == 0 ? 4 : c.size == 1 ? 7 : 9); base = oneOf(std::vector<int>{0,0,60,126});
      int dens = oneOf(std::vector<int>{3,5,1,8});
      if (c.shape) { n = 16 + (int)draw(4); dens = 2 + (int)draw(2); }
      bool big = chance(1,3);
      for(int i=0;i<n;i++) { adj[i] = 0; w[i] = big ? pick(1,9) : 1; }
      for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if ((int)draw(10) >= 10-dens) { adj[i] |= 1u<<j; adj[j] |= 1u<<i; }
      for(int i=0;i<n;i++) for(int j=0;j<n;j++) if (adj[i]>>j&1) nb[i].insert(base+j);
      useLocal = c.allowLocal && chance(1,2);
      feasible = true; opt = 0;
      std::vector<short> val(1u<<n,0);                    // -1: not independent
      for(unsigned m=1;m<(1u<<n);m++) { int i = std::countr_zero(m); unsigned r = m & (m-1); val[m] = val[r] < 0 || (adj[i] & r) ? -1 : (short)(val[r] + w[i]); if (val[m] > opt) opt = val[m]; }
      name = fmt("misp(n=%d,base=%d,local=%d,answer=%g)",n,base,(int)useLocal,opt);
      if (verbose()) { std::string s = name; for(int i=0;i<n;i++) s += fmt(" %d:w%d:%x",i,w[i],adj[i]); note(s); }
   }
};

// ====================================================================== golomb rulers (labels depend on the incumbent)
typedef NatSet<2> GRSet;
struct GoS { GRSet m,d; int k,e; Live live; friend std::ostream& operator<<(std::ostream& os,const GoS& s) { return os << "<" << s.m << ',' << s.d << ',' << s.k << ',' << s.e << ">"; } };
template<> struct std::equal_to<GoS> { bool operator()(const GoS& a,const GoS& b) const { return a.k == b.k && a.e == b.e && a.m == b.m && a.d == b.d; } };
template<> struct std::hash<GoS> { std::size_t operator()(const GoS& v) const noexcept { return squash(std::hash<GRSet>{}(v.m) ^ std::hash<GRSet>{}(v.d)*31 ^ (uint64_t)v.k<<40 ^ (uint64_t)v.e<<50); } };
struct Golomb : Inst {
   int n,top;
   AbstractDD::Ptr make(Actor* A,const Bounds* b) const override {
      A->budget = std::max(A->budget,budget());
      const Golomb* g = this;
      auto H = [](const GoS& s) { uint64_t h = (uint64_t)s.k<<20 ^ s.e; for(auto v : s.m) h = mix(h,v); for(auto v : s.d) h = mix(h,v+1000); return h; };
      std::function<GoS()> init = [=] { A->call(K_INIT,0); return GoS{GRSet{0},GRSet{},1,0}; };
      std::function<GoS()> target = [=] { A->call(K_TARGET,0); return GoS{GRSet{},GRSet{},g->n,0}; };
      std::function<Range(const GoS&)> lgf = [=](const GoS& s) { A->call(K_LABELS,H(s)); int ub = std::min((double)g->top,std::ceil(b->getPrimal())-1); return Range::closeInc(s.e+1,ub); };
      std::function<std::optional<GoS>(const GoS&,int)> stf = [=](const GoS& s,int l) -> std::optional<GoS> { A->call(K_NEXT,H(s),l);
         for(auto i : s.m) if (s.d.contains(l - i)) return std::nullopt;
         if (s.k == g->n-1) return GoS{GRSet{},GRSet{},g->n,0};
         return GoS{s.m | GRSet{l},(l - s.m) | s.d,s.k+1,l}; };
      std::function<double(const GoS&,int)> scf = [=](const GoS& s,int l) { A->call(K_COST,H(s),l); return (double)(l - s.e); };
      std::function<std::optional<GoS>(const GoS&,const GoS&)> smf = [=](const GoS& a,const GoS& c) -> std::optional<GoS> { A->call(K_MERGE,mix(H(a),H(c)));
         if (a.k == c.k && a.e == c.e) return GoS{a.m & c.m,a.d & c.d,a.k,a.e}; return std::nullopt; };
      std::function<bool(const GoS&)> eqs = [=](const GoS& s) { A->call(K_SINK,H(s)); return s.k == g->n; };
      return DD<GoS,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(1,top));
   }
   bool check(const std::vector<int>& l,double& v,std::string& why) const override {
      if ((int)l.size() != n-1) { why = "wrong number of marks"; return false; }
      std::vector<int> m{0}; unsigned long long ds[4] = {0};
      for(int x : l) { if (x <= m.back() || x > top) { why = "marks not increasing"; return false; } for(int y : m) { int q = x-y; if (ds[q>>6]>>(q&63)&1) { why = fmt("distance %d repeated",q); return false; } ds[q>>6] |= 1ull<<(q&63); } m.push_back(x); }
      v = m.back(); return true;
   }
   static void rec(int n,std::vector<int>& m,std::vector<char>& used,int& best) {
      if ((int)m.size() == n) { best = std::min(best,m.back()); return; }
      for(int x=m.back()+1;x < best;x++) { bool ok = true; std::vector<int> mine; for(int y : m) { if (used[x-y]) { ok = false; break; } used[x-y] = 1; mine.push_back(x-y); } if (ok) { m.push_back(x); rec(n,m,used,best); m.pop_back(); } for(int q : mine) used[q] = 0; }
   }
   void gen(const GenCfg& c) {
      maxi = false; primalDependent = true;
      n = 2 + draw(c.size == 0 ? 2 : 3); top = pick(n-1,c.size == 2 ? 14 : 10);
      std::vector<int> m{0}; std::vector<char> used(256,0); int best = top+1; rec(n,m,used,best);
      feasible = best <= top; opt = best;
      name = fmt("golomb(n=%d,top=%d,answer=%g)",n,top,answer());
      note(name);
   }
};

namespace sim {
InstP drawInstance(const GenCfg& c) {
   hashMode = (int)oneOf(c.shape == 1 ? std::vector<int>{0,0,0,0,3,3} : c.shape == 3 ? std::vector<int>{0} : std::vector<int>{0,0,0,1,2,3});
   int k = c.tableOnly ? 0 : (int)draw(20);
   if (c.shape == 1 && !c.tableOnly) { k = oneOf(std::vector<int>{13,13,15,17,0}); }
   if (c.nodeOnly && k >= 12) k = 13;
   if (c.shape) allowCpu(100);
   if (c.shape == 3) { auto t = new Fan; InstP r(t); t->shaped = c.shape; t->gen(c); return r; }
   if (k < 12) { auto t = new Table; InstP r(t); t->shaped = c.shape; t->gen(c); return r; }
   if (k < 14) { auto t = new Knap; InstP r(t); t->shaped = c.shape; t->gen(c); return r; }
   if (k < 16) { auto t = new Tsp; InstP r(t); t->shaped = c.shape; t->gen(c); return r; }
   if (k < 19 || !c.allowPrimalDependent) { auto t = new Misp; InstP r(t); t->shaped = c.shape; t->gen(c); return r; }
   auto t = new Golomb; InstP r(t); t->shaped = c.shape; t->gen(c); return r;
}
GenCfg drawCfg(int wide) {
   GenCfg g; g.size = (int)oneOf(std::vector<int>{1,0,2}); g.hard = hardRun = chance(2,3); shapeRun = 0;
   uint32_t s = draw(20000); g.shape = s >= 19970 ? 1 : s >= 19900 ? 2 : (int)s >= 19900 - wide ? 3 : 0;
   if (g.shape) { g.size = 1; if (g.shape == 2) g.tableOnly = true; count(g.shape == 1 ? "shape.many-states" : g.shape == 2 ? "shape.many-layers" : "shape.wide"); }
   shapeRun = g.shape;
   if (g.shape == 3) { OffArena o; knobs.erase("nodes"); knobs.erase("seen"); }
   if (g.hard) count("hard-instances");
   return g;
}
int drawWidth() {
   if (shapeRun == 3) return shapeWidth;
   if (shapeRun == 1 && chance(1,2)) return oneOf(std::vector<int>{65,80,100,130,250,300});
   return hardRun ? oneOf(std::vector<int>{1,2,3,2,4}) : oneOf(std::vector<int>{1,2,3,4,5,7,16,64});
}
}
