// The value types models are written with (sets of naturals, arrays, matrices): C16.
// A history of constructions, copies, moves, assignments and operations runs on objects living in dirty memory
// while allocations fail; every object is compared with a plain std::set / std::vector after every step.
#include "sim.hpp"
#include <cstring>
#include "codd.hpp"
#include <set>
#include <optional>
#include <sstream>
using namespace sim;

namespace {
typedef std::set<int> Ref;
#define OFF OffArena off_

std::string str(const Ref& r) { OFF; std::string s = "{"; for(int v : r) s += (s.size() > 1 ? "," : "") + std::to_string(v); return s + "}"; }
bool huge = false;
int drawVal() {
   switch(draw(8)) {
      case 0: return oneOf(std::vector<int>{0,63,64,127,128,191,192,1,62,65,126,129});
      case 1: return (int)draw(2000);
      case 2: return (int)draw(64);
      case 3: if (chance(1,20)) return oneOf(std::vector<int>{32000,32760,66000}) + (int)draw(64);
              if (huge && chance(1,3)) return oneOf(std::vector<int>{1048576,2097152,1000000,4194304}) + (int)draw(100) - 50;
      default: return (int)draw(200);
   }
}
bool faulty = false, fired = false;
// Runs one operation of the library; false: it threw bad_alloc because memory was refused.
template <class F> bool attempt(F f) {
   fired = false; bool arm = faulty && chance(1,4);
   if (arm) armAllocFailure(1 + draw(3),chance(1,3));
   bool ok = true;
   try { f(); } catch(std::bad_alloc&) { ok = false; }
   if (arm) { fired = allocFailureFired(); disarmAllocFailure(); if (fired) count("fault.alloc-failure"); }
   if (!ok && !fired) fail("spurious-bad-alloc","an operation reported missing memory although there was some");
   if (!ok) count("outcome.exception");
   return ok;
}

// ---- storage whose previous contents are drawn
template <class T> struct Slot {
   alignas(16) unsigned char raw[sizeof(T)]; bool live = false;
   Slot() { memset(raw,0,sizeof(raw)); }
   T& operator*() { return *reinterpret_cast<T*>(raw); }
   template <class... A> bool make(A&&... a) {
      drop(); memset(raw,oneOf(std::vector<int>{0,0xff,0x5a,0x01}),sizeof(raw));
      live = attempt([&] { new (raw) T(std::forward<A>(a)...); });
      return live;
   }
   void drop() { if (live) { live = false; (**this).~T(); } }
   ~Slot() { drop(); }
};

// ---- what a set shows of itself
template <class S> void readSet(const S& s,std::vector<int>& out) {
   OFF; out.clear();
   int last = -1;
   for(auto i = s.begin();i != s.end();i++) {
      int v = *i;
      if (v <= last) fail("order",fmt("iteration gives %d after %d",v,last));
      out.push_back(last = v);
      if (out.size() > 300000) fail("endless-iteration","iterating a set does not end");
   }
}
template <class S> bool holds(const S& s,const Ref& r) { std::vector<int> v; readSet(s,v); OFF; return v.size() == r.size() && std::equal(v.begin(),v.end(),r.begin()); }
template <class S> void auditSet(const S& s,const Ref& r,const char* what,int id,int top) {
   std::vector<int> v; readSet(s,v);
   if (v.size() != r.size() || !std::equal(v.begin(),v.end(),r.begin())) { Ref g(v.begin(),v.end()); fail("content",fmt("%s %d is %s, expected %s",what,id,str(g).c_str(),str(r).c_str())); }
   if (s.size() != (int)r.size()) fail("size",fmt("%s %d has size %d, expected %zu",what,id,s.size(),r.size()));
   if (s.empty() != r.empty()) fail("empty",fmt("%s %d: empty() says %d with %zu elements",what,id,(int)s.empty(),r.size()));
   for(int k=0;k<3;k++) { int p = drawVal(); if (p < top && s.contains(p) != (r.count(p) > 0)) fail("member",fmt("%s %d: contains(%d) says %d",what,id,p,(int)s.contains(p))); }
   if (!r.empty()) { int p = *r.rbegin(); if (!s.contains(p)) fail("member",fmt("%s %d: its largest element %d is denied",what,id,p)); if (p+1 < top && s.contains(p+1)) fail("member",fmt("%s %d: %d is claimed",what,id,p+1)); }
   if (chance(1,10)) { OFF; std::ostringstream o; o << s; if (o.str() != str(r)) fail("printed",fmt("%s %d is printed as %s, expected %s",what,id,o.str().c_str(),str(r).c_str())); }
}

struct Sets {                            // growing sets
   static constexpr int N = 5;
   Slot<GNSet> o[N]; Ref r[N]; bool gone[N] = {false};       // gone: moved from, may only be assigned, moved to or destroyed
   int any() { for(int k=0;k<8;k++) { int i = (int)draw(N); if (o[i].live && !gone[i]) return i; } return -1; }
   void born(int t,bool ok,const Ref& v,const char* how) { OFF; gone[t] = false; r[t] = v; if (!ok) r[t].clear(); note(fmt("set %d: %s %s%s",t,how,str(v).c_str(),ok ? "" : " (no memory)")); }
   void afterFailure(int t,const char* how) {               // the target of an operation that threw: its old value, or nothing
      note(fmt("set %d: %s fails for lack of memory",t,how));
      if (gone[t]) { gone[t] = false; if (!holds(*o[t],Ref())) fail("target-after-failure",fmt("set %d holds something nobody put there",t)); OFF; r[t].clear(); return; }
      if (holds(*o[t],r[t])) return;
      if (holds(*o[t],Ref())) { OFF; r[t].clear(); return; }
      fail("target-after-failure",fmt("set %d is neither what it was nor empty after a failed %s",t,how));
   }
   template <class B> void step(B& fixed) {
      int t = (int)draw(N), op = (int)draw(26);
      if (op < 7 || !o[t].live) {
         Ref v; bool ok;
         switch(draw(9)) {
            case 0: ok = o[t].make(); born(t,ok,v,"empty"); break;
            case 1: { int nb = oneOf(std::vector<int>{64,0,1,63,65,128,200}); ok = o[t].make((unsigned short)nb); born(t,ok,v,"empty, sized"); break; }
            case 2: { int a = (int)draw(140), b = a - 3 + (int)draw(140); if (b < 0) b = 0; { OFF; for(int i=a;i<=b;i++) v.insert(i); } ok = o[t].make(a,b); born(t,ok,v,"interval"); break; }
            case 3: { int a = (int)draw(140), b = (int)draw(140), m = (int)draw(4);
                  bool flip = chance(1,4) && a < b;
                  Range rg = flip ? Range::open(a,b).flip() : m == 0 ? Range::open(a,b) : m == 1 ? Range::close(a,b) : m == 2 ? Range::openInc(a,b) : Range::closeInc(a,b);
                  { OFF; if (a <= b) { for(int i=a;i<b;i++) v.insert(i); if (m & 1 && rg.from() <= rg.to()) v.insert(b); } else if (m < 2) { for(int i=a;i>b;i--) v.insert(i); if (m & 1) v.insert(b); } }
                  ok = o[t].make(rg); born(t,ok,v,"range"); break; }
            case 4: { int a = drawVal(), b = drawVal(), c = drawVal(); { OFF; v = {a,b,c}; } ok = o[t].make(std::initializer_list<int>{a,b,c}); born(t,ok,v,"list"); break; }
            case 5: { if (!fixed.o[0].live) return; { OFF; v = fixed.r[0]; } ok = o[t].make(*fixed.o[0]); born(t,ok,v,"from a fixed-size set"); break; }
            case 6: case 7: { int u = any(); if (u < 0 || u == t) return; { OFF; v = r[u]; } ok = o[t].make(*o[u]); born(t,ok,v,"copy of another"); break; }
            default: { int u = any(); if (u < 0 || u == t) return; { OFF; v = r[u]; } ok = o[t].make(std::move(*o[u])); if (!ok) fail("move-needs-memory","moving a set failed for lack of memory"); gone[u] = true; born(t,ok,v,"moved from another"); count("moves"); }
         }
         return;
      }
      int u = any();
      if (op < 11) {                     // assignment
         if (u < 0) return;
         if (op < 9) { bool ok = attempt([&] { *o[t] = *o[u]; }); if (!ok) { afterFailure(t,"assignment"); return; } if (gone[t]) count("assigned-after-move"); OFF; r[t] = Ref(r[u]); gone[t] = false; note(fmt("set %d = set %d",t,u)); }
         else { if (u == t) return; bool ok = attempt([&] { *o[t] = std::move(*o[u]); }); if (!ok) fail("move-needs-memory","moving a set failed for lack of memory"); OFF; r[t] = r[u]; gone[t] = false; gone[u] = true; count("moves"); note(fmt("set %d = moved set %d",t,u)); }
         return;
      }
      if (op == 11) { o[t].drop(); gone[t] = false; note(fmt("set %d destroyed",t)); return; }
      if (gone[t]) return;
      GNSet& s = *o[t];
      auto failed = [&](const char* how) { afterFailure(t,how); };
      switch(op) {
         case 12: case 13: case 14: case 15: { int p = drawVal(); if (!attempt([&] { s.insert(p); })) return failed("insert"); OFF; r[t].insert(p); note(fmt("set %d insert %d",t,p)); break; }
         case 16: { int p = !r[t].empty() && chance(2,3) ? *std::next(r[t].begin(),draw((uint32_t)r[t].size())) : drawVal(); s.remove(p); OFF; r[t].erase(p); note(fmt("set %d remove %d",t,p)); break; }
         case 17: if (u >= 0) { if (!attempt([&] { s.unionWith(*o[u]); })) return failed("union"); OFF; Ref x = r[u]; r[t].insert(x.begin(),x.end()); note(fmt("set %d |= set %d",t,u)); } break;
         case 18: if (u >= 0) { s.interWith(*o[u]); OFF; Ref x; for(int v : r[t]) if (r[u].count(v)) x.insert(v); r[t] = x; note(fmt("set %d &= set %d",t,u)); } break;
         case 19: if (u >= 0) { s.diffWith(*o[u]); OFF; Ref x; for(int v : r[t]) if (!r[u].count(v)) x.insert(v); r[t] = x; note(fmt("set %d -= set %d",t,u)); } break;
         case 20: case 21: { int v = any(), w = any(); if (v < 0 || w < 0) return; int k = (int)draw(3);
               if (!attempt([&] { if (k == 0) s = *o[v] | *o[w]; else if (k == 1) s = *o[v] & *o[w]; else s = *o[v] - *o[w]; })) return failed("set operation");
               OFF; Ref x; if (k == 0) { x = r[v]; x.insert(r[w].begin(),r[w].end()); } else for(int i : r[v]) if ((k == 1) == (r[w].count(i) > 0)) x.insert(i); r[t] = x; note(fmt("set %d = set %d %c set %d",t,v,"|&-"[k],w)); break; }
         case 22: { int p = drawVal() - 1; s.removeAbove(p); OFF; r[t].erase(r[t].upper_bound(p),r[t].end()); note(fmt("set %d removeAbove %d",t,p)); break; }
         case 23: { int p = drawVal(); s.removeBelow(p); OFF; r[t].erase(r[t].begin(),r[t].lower_bound(p)); note(fmt("set %d removeBelow %d",t,p)); break; }
         case 24: if (s.nbWords() <= 48 && chance(1,3)) { int top = s.nbWords()*64; s.complement(); OFF; Ref x; for(int i=0;i<top;i++) if (!r[t].count(i)) x.insert(i); r[t] = x; note(fmt("set %d complement",t)); } else if (chance(1,2)) { s.clear(); OFF; r[t].clear(); note(fmt("set %d clear",t)); } break;
         default: {
               std::optional<GNSet> f; int m = 2 + (int)draw(3);
               if (!attempt([&] { f.emplace(filter(s,[m](int v) { return v % m == 0; })); })) return;
               Ref x; { OFF; for(int v : r[t]) if (v % m == 0) x.insert(v); }
               auditSet(*f,x,"filtered set",t,100000);
               int mn = std::numeric_limits<int>::max(), mx = std::numeric_limits<int>::min(); long sm = 0; for(int v : r[t]) { sm += v & 7; if (v % m == 0) { mn = std::min(mn,v+1); mx = std::max(mx,v+1); } }
               auto flt = [m](int v) { return v % m == 0; }; auto inc = [](int v) { return v+1; };
               if (min(s,flt,inc) != mn || max(s,flt,inc) != mx) fail("extrema",fmt("set %d %s: filtered extrema are %d..%d, expected %d..%d",t,str(r[t]).c_str(),min(s,flt,inc),max(s,flt,inc),mn,mx));
               if (sum(s,[](int v) { return v & 7; }) != sm) fail("sum",fmt("set %d: a sum is wrong",t));
               if (!r[t].empty() && (min(s) != *r[t].begin() || max(s) != *r[t].rbegin())) fail("extrema",fmt("set %d %s: min %d max %d",t,str(r[t]).c_str(),min(s),max(s)));
            }
      }
   }
   void audit() {
      for(int i=0;i<N;i++) if (o[i].live && !gone[i]) auditSet(*o[i],r[i],"set",i,100000);
      int a = any(), b = any(); if (a < 0 || b < 0) return;
      bool eq = r[a] == r[b];
      if ((*o[a] == *o[b]) != eq || (*o[a] != *o[b]) == eq) fail("comparison",fmt("set %d %s and set %d %s: == says %d, != says %d",a,str(r[a]).c_str(),b,str(r[b]).c_str(),(int)(*o[a] == *o[b]),(int)(*o[a] != *o[b])));
      if (eq && a != b) { count("probe.equal-sets"); if (std::hash<GNSet>{}(*o[a]) != std::hash<GNSet>{}(*o[b])) fail("hash",fmt("set %d and set %d are both %s but hash differently",a,b,str(r[a]).c_str())); }
   }
   void end() { for(auto& x : o) x.drop(); OFF; for(auto& x : r) x.clear(); }
};

template <unsigned short W> struct Fixed {           // fixed-size sets
   static constexpr int N = 3, TOP = 64*W;
   Slot<NatSet<W>> o[N]; Ref r[N];
   int val() { int v = chance(1,4) ? oneOf(std::vector<int>{0,63,64,TOP-1,TOP-64,127,1}) : (int)draw(TOP); return v < TOP ? v : TOP-1; }
   void born(int t,const Ref& v,const char* how) { OFF; r[t] = v; note(fmt("fixed set %d: %s %s",t,how,str(v).c_str())); }
   void step() {
      int t = (int)draw(N), u = (int)draw(N), op = (int)draw(14); Ref v;
      if (op < 4 || !o[t].live) {
         switch(draw(5)) {
            case 0: o[t].make(); born(t,v,"empty"); break;
            case 1: { int a = val(), b = val(); if (b == TOP-1) b--; { OFF; for(int i=a;i<=b;i++) v.insert(i); } o[t].make(a,b); born(t,v,"interval"); break; }
            case 2: { int a = val(), b = val(); { OFF; v = {a,b}; } o[t].make(std::initializer_list<int>{a,b}); born(t,v,"list"); break; }
            default: if (!o[u].live || u == t) return; { OFF; v = r[u]; } if (chance(1,2)) o[t].make(*o[u]); else { NatSet<W> c(*o[u]); o[t].make(std::move(c)); } born(t,v,"copy"); break;
         }
         return;
      }
      NatSet<W>& s = *o[t];
      switch(op) {
         case 4: case 5: case 6: { int p = val(); s.insert(p); OFF; r[t].insert(p); note(fmt("fixed set %d insert %d",t,p)); break; }
         case 7: if (o[u].live) { s.unionWith(*o[u]); OFF; Ref x = r[u]; r[t].insert(x.begin(),x.end()); note(fmt("fixed set %d |= %d",t,u)); } break;
         case 8: if (o[u].live) { s.interWith(*o[u]); OFF; Ref x; for(int i : r[t]) if (r[u].count(i)) x.insert(i); r[t] = x; note(fmt("fixed set %d &= %d",t,u)); } break;
         case 9: if (o[u].live) { s = *o[u]; OFF; r[t] = Ref(r[u]); note(fmt("fixed set %d = %d",t,u)); } break;
         case 10: if (chance(1,3)) { s.complement(); OFF; Ref x; for(int i=0;i<TOP;i++) if (!r[t].count(i)) x.insert(i); r[t] = x; note(fmt("fixed set %d complement",t)); } else if (chance(1,2)) { s.clear(); OFF; r[t].clear(); note(fmt("fixed set %d clear",t)); } break;
         case 11: if (o[u].live) { int k = (int)draw(2); s = k ? (*o[t] | *o[u]) : (*o[t] & *o[u]); OFF; Ref x; if (k) { x = r[t]; x.insert(r[u].begin(),r[u].end()); } else for(int i : r[t]) if (r[u].count(i)) x.insert(i); r[t] = x; note(fmt("fixed set %d %s= %d",t,k ? "|" : "&",u)); } break;
         default: {                      // all differences to a value
               if (!o[u].live) return;
               int mx = r[u].empty() ? 0 : *r[u].rbegin(); int l = mx + (int)draw((uint32_t)(TOP - mx)); if (chance(1,3)) l = mx;
               NatSet<W> d = l - *o[u]; { OFF; for(int i : r[u]) v.insert(l - i); }
               note(fmt("fixed set %d = %d - set %d %s",t,l,u,str(r[u]).c_str()));
               s = d; OFF; r[t] = v; count("probe.reflected");
            }
      }
   }
   void audit() {
      for(int i=0;i<N;i++) if (o[i].live) { auditSet(*o[i],r[i],"fixed set",i,TOP); if ((*o[i]).largest() != (r[i].empty() ? -1 : *r[i].rbegin())) fail("largest",fmt("fixed set %d: largest is %d",i,(*o[i]).largest())); }
      int a = (int)draw(N), b = (int)draw(N); if (!o[a].live || !o[b].live) return;
      if ((*o[a] == *o[b]) != (r[a] == r[b])) fail("comparison",fmt("fixed sets %d and %d: == is wrong",a,b));
      if (r[a] == r[b] && std::hash<NatSet<W>>{}(*o[a]) != std::hash<NatSet<W>>{}(*o[b])) fail("hash","equal fixed-size sets hash differently");
   }
   void end() { for(auto& x : o) x.drop(); OFF; for(auto& x : r) x.clear(); }
};

// ---- arrays: of numbers and of sets
template <class T> struct Elem;
template <> struct Elem<int> {
   typedef int M; static M draw1() { return (int)draw(1000); } static void put(int& x,const M& m) { x = m; } static bool is(const int& x,const M& m) { return x == m; } static bool blank(const int&) { return false; }
   static int lit(const M& m) { return m; }
};
template <> struct Elem<GNSet> {
   typedef Ref M; static M draw1() { OFF; Ref r; int n = (int)draw(3); for(int i=0;i<n;i++) r.insert(drawVal()); return r; }
   static void put(GNSet& x,const M& m) { GNSet n; for(int v : m) n.insert(v); x = std::move(n); }
   static bool is(const GNSet& x,const M& m) { return holds(x,m); } static bool blank(const GNSet& x) { return x.empty(); }
   static GNSet lit(const M& m) { GNSet n; for(int v : m) n.insert(v); return n; }
};
template <class T> struct Arrays {
   typedef Elem<T> E; typedef typename E::M M; static constexpr int N = 3;
   Slot<FArray<T>> o[N]; std::vector<M> r[N]; bool gone[N] = {false}; const char* what;
   Arrays(const char* w) : what(w) {}
   int any() { for(int k=0;k<6;k++) { int i = (int)draw(N); if (o[i].live && !gone[i]) return i; } return -1; }
   bool same(int t,const std::vector<M>& v) { if ((*o[t]).size() != v.size()) return false; for(size_t i=0;i<v.size();i++) if (!E::is((*o[t])[i],v[i])) return false; return true; }
   void adopt(int t,const std::vector<M>& v) {           // a failed assignment: every element is the old one, the new one or blank
      auto& a = *o[t]; if (a.size() != r[t].size() && a.size() != v.size() && a.size() != 0) fail("target-after-failure",fmt("%s %d has size %zu after a failed assignment",what,t,a.size()));
      OFF; if (a.size() == 0) { r[t].clear(); return; }
      if (a.size() != r[t].size()) r[t].assign(v.size(),M());
      for(size_t i=0;i<r[t].size();i++) if (!E::is(a[i],r[t][i])) { if (i < v.size() && E::is(a[i],v[i])) r[t][i] = v[i]; else if (E::blank(a[i])) r[t][i] = M(); else fail("target-after-failure",fmt("%s %d: element %zu is neither old nor new",what,t,i)); }
   }
   void step() {
      int t = (int)draw(N), op = (int)draw(12);
      if (op < 4 || !o[t].live) {
         std::vector<M> v; bool ok;
         switch(draw(5)) {
            case 0: ok = o[t].make(); break;
            case 1: { size_t n = draw(6); ok = o[t].make(n); if (!ok) break; OFF; for(size_t i=0;i<n;i++) { M m = E::draw1(); v.push_back(m); E::put((*o[t])[i],m); } break; }
            case 2: { size_t n = draw(6); M m = E::draw1(); { OFF; v.assign(n,m); } T x = E::lit(m); ok = o[t].make(n,x); break; }
            case 3: { int u = any(); if (u < 0 || u == t) return; { OFF; v = r[u]; } ok = o[t].make(*o[u]); break; }
            default: { int u = any(); if (u < 0 || u == t) return; { OFF; v = r[u]; } ok = o[t].make(std::move(*o[u])); if (!ok) fail("move-needs-memory","moving an array failed for lack of memory"); gone[u] = true; count("moves"); }
         }
         gone[t] = false;
         OFF; r[t] = v; note(fmt("%s %d created with %zu elements%s",what,t,v.size(),ok ? "" : " (no memory)"));
         return;
      }
      int u = any();
      if (op < 7) { if (u < 0) return; if (!attempt([&] { *o[t] = *o[u]; })) { note(fmt("%s %d: assignment fails",what,t)); if (gone[t]) { gone[t] = false; OFF; r[t].clear(); if ((*o[t]).size() != 0) o[t].drop(); } else adopt(t,r[u]); return; } if (gone[t]) count("assigned-after-move"); OFF; r[t] = std::vector<M>(r[u]); gone[t] = false; note(fmt("%s %d = %d",what,t,u)); }
      else if (op == 7) { if (u < 0 || u == t) return; if (!attempt([&] { *o[t] = std::move(*o[u]); })) fail("move-needs-memory","moving an array failed for lack of memory"); OFF; r[t] = r[u]; gone[t] = false; gone[u] = true; count("moves"); note(fmt("%s %d = moved %d",what,t,u)); }
      else if (op == 8) { o[t].drop(); gone[t] = false; note(fmt("%s %d destroyed",what,t)); }
      else if (!gone[t] && !r[t].empty()) { size_t i = draw((uint32_t)r[t].size()); M m = E::draw1(); if (!attempt([&] { T x = E::lit(m); (*o[t])[i] = x; })) { if (!E::is((*o[t])[i],r[t][i])) { if (!E::blank((*o[t])[i])) fail("target-after-failure",fmt("%s %d: element %zu is neither old nor new",what,t,i)); OFF; r[t][i] = M(); } return; } OFF; r[t][i] = m; note(fmt("%s %d[%zu] set",what,t,i)); }
   }
   void audit() {
      for(int i=0;i<N;i++) if (o[i].live && !gone[i]) {
         auto& a = *o[i]; const auto& ca = a;
         if (a.size() != r[i].size()) fail("size",fmt("%s %d has %zu elements, expected %zu",what,i,a.size(),r[i].size()));
         for(size_t k=0;k<r[i].size();k++) if (!E::is(ca[k],r[i][k])) fail("content",fmt("%s %d: element %zu is not what was stored",what,i,k));
         size_t k = 0; for(auto it = a.begin();it != a.end();++it,++k) if (k >= r[i].size() || !E::is(*it,r[i][k])) fail("content",fmt("%s %d: iteration differs at %zu",what,i,k));
         if (k != r[i].size()) fail("content",fmt("%s %d: iteration ends after %zu",what,i,k));
      }
      int a = any(), b = any(); if (a < 0 || b < 0) return;
      if ((*o[a] == *o[b]) != (r[a] == r[b])) fail("comparison",fmt("%s %d and %d: == is wrong",what,a,b));
      if (r[a] == r[b] && std::hash<FArray<T>>{}(*o[a]) != std::hash<FArray<T>>{}(*o[b])) fail("hash",fmt("equal %ss hash differently",what));
   }
   void end() { for(auto& x : o) x.drop(); OFF; for(auto& x : r) { x.clear(); x.shrink_to_fit(); } }
};

struct Mats {
   static constexpr int N = 3; Slot<Matrix<int,2>> o[N]; int h[N],w[N]; std::vector<int> r[N];
   bool same(int t,int hh,int ww,const std::vector<int>& v) { auto& m = *o[t]; if (m.getDim(0) != hh || m.getDim(1) != ww) return false; for(int i=0;i<hh;i++) for(int j=0;j<ww;j++) if (m[i][j] != v[(size_t)i*ww+j]) return false; return true; }
   void step() {
      int t = (int)draw(N), u = (int)draw(N), op = (int)draw(8);
      if (op < 2 || !o[t].live) {
         if (chance(1,3) && o[u].live && u != t) { bool ok = o[t].make(*o[u]); if (ok) { h[t] = h[u]; w[t] = w[u]; OFF; r[t] = std::vector<int>(r[u]); } note(fmt("matrix %d copy of %d",t,u)); return; }
         int a = 1 + (int)draw(4), b = 1 + (int)draw(5);
         if (!o[t].make(a,b)) return;
         h[t] = a; w[t] = b; { OFF; r[t].assign((size_t)a*b,0); } for(int i=0;i<a;i++) for(int j=0;j<b;j++) (*o[t])[i][j] = r[t][(size_t)i*b+j] = (int)draw(100);
         note(fmt("matrix %d of %dx%d",t,a,b));
      } else if (op < 4) {
         if (!o[u].live) return;
         if (!attempt([&] { *o[t] = *o[u]; })) { note(fmt("matrix %d: assignment fails",t)); if (!same(t,h[t],w[t],r[t])) fail("target-after-failure",fmt("matrix %d changed in a failed assignment",t)); return; }
         h[t] = h[u]; w[t] = w[u]; OFF; r[t] = std::vector<int>(r[u]); note(fmt("matrix %d = %d",t,u));
      } else if (op == 4) { o[t].drop(); note(fmt("matrix %d destroyed",t)); }
      else { int i = (int)draw((uint32_t)h[t]), j = (int)draw((uint32_t)w[t]), x = (int)draw(100); (*o[t])[i][j] = x; r[t][(size_t)i*w[t]+j] = x; note(fmt("matrix %d[%d][%d] = %d",t,i,j,x)); }
   }
   void audit() { for(int t=0;t<N;t++) if (o[t].live) { if (!same(t,h[t],w[t],r[t])) fail("content",fmt("matrix %d is not what was stored",t)); if ((*o[t]).getArity() != 2) fail("content","a matrix has two dimensions"); } }
   void end() { for(auto& x : o) x.drop(); OFF; for(auto& x : r) { x.clear(); x.shrink_to_fit(); } }
};

struct Pile {                            // sets inside a standard container: shifting, sorting, swapping
   std::vector<GNSet> v; std::vector<Ref> r;
   void step() {
      int op = (int)draw(8); size_t n = r.size();
      try {
         if (op < 3 && n < 8) { size_t at = draw((uint32_t)n+1); Ref m = Elem<GNSet>::draw1(); GNSet x = Elem<GNSet>::lit(m); v.insert(v.begin()+(long)at,x); OFF; r.insert(r.begin()+(long)at,m); }
         else if (op == 3 && n) { size_t at = draw((uint32_t)n); v.erase(v.begin()+(long)at); OFF; r.erase(r.begin()+(long)at); }
         else if (op == 4 && n > 1) { size_t a = draw((uint32_t)n), b = draw((uint32_t)n); if (a != b) { std::swap(v[a],v[b]); OFF; std::swap(r[a],r[b]); } }
         else if (op == 5 && n) { size_t a = draw((uint32_t)n); GNSet x = std::move(v[a]); size_t b = draw((uint32_t)n); if (a != b) v[a] = v[b]; else v[a] = x; OFF; if (a != b) r[a] = r[b]; }
         else if (op == 6) { std::sort(v.begin(),v.end(),[](const GNSet& a,const GNSet& b) { return sum(a,[](int x) { return x; }) < sum(b,[](int x) { return x; }); }); OFF; std::stable_sort(r.begin(),r.end(),[](const Ref& a,const Ref& b) { int x = 0,y = 0; for(int i : a) x += i; for(int i : b) y += i; return x < y; });
            for(size_t i=0;i<r.size();i++) { int x = 0,y = 0; for(int k : r[i]) x += k; for(int k : v[i]) y += k; if (x != y) fail("content","sorting a vector of sets lost an element"); Ref g; for(int k : v[i]) g.insert(k); r[i] = g; } }
      } catch(std::bad_alloc&) { fail("spurious-bad-alloc","an operation reported missing memory although there was some"); }
   }
   void audit() { if (v.size() != r.size()) fail("size","a vector of sets lost count"); for(size_t i=0;i<r.size();i++) auditSet(v[i],r[i],"element",(int)i,100000); }
};

template <unsigned short W> void run() {
   uint64_t b0 = liveBlocks();
   {
      Sets s; Fixed<W> f; Arrays<int> a("array"); Arrays<GNSet> g("array of sets"); Mats m; Pile p;
      int mask = 1 + (int)draw(63); int n = 1 + (int)draw((uint32_t)oneOf(std::vector<int>{40,8,120,400}));
      huge = chance(1,500); if (huge) { n = std::min(n,60); count("probe.huge-values"); }
      if (n > 20) nontrivial();
      for(int k=0;k<n;k++) {
         int w; do w = (int)draw(8); while(w < 6 && !(mask>>w & 1));
         if (w >= 6 && !(mask & 1)) continue;
         switch(w) { case 0: case 6: case 7: s.step(f); break; case 1: f.step(); break; case 2: a.step(); break; case 3: g.step(); break; case 4: m.step(); break; default: p.step(); }
         s.audit(); if (mask & 2 || mask & 1) f.audit(); a.audit(); g.audit(); m.audit(); p.audit();
         count("operations");
         if (k % 16 == 0) { std::string why; if (!checkHeapCanaries(why)) fail("heap-overflow",why); }
      }
      for(int i=0;i<Sets::N;i++) for(int v : s.r[i]) mark((uint64_t)v);
      for(auto& x : a.r) for(int v : x) mark((uint64_t)v);
      mark(tapeLen());
      s.end(); f.end(); a.end(); g.end(); m.end();
   }
   std::string why; if (!checkHeapCanaries(why)) fail("heap-overflow",why);
   if (liveBlocks() != b0) fail("leak",fmt("%lu blocks were never given back",(unsigned long)(liveBlocks() - b0)));
}
void c16body() {
   switch(draw(5)) { case 0: run<1>(); break; case 1: run<2>(); break; case 2: run<3>(); break; case 3: run<4>(); break; default: run<6>(); }
}
}
static void c16() {
   drawHeap();
   faulty = chance(1,12);
   if (!faulty) { c16body(); return; }
   // an operation that may not throw ends the process when memory is refused: that is a legal end
   int rc = inChild([] { c16body(); });
   if (rc == 1) { count("outcome.fail-stop"); mark(1); }
   nontrivial();
}
static Reg r16("C16",c16);
