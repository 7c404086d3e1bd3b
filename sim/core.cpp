#include "sim.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <new>
#include <iostream>
#include <set>
#include <unordered_set>
#include <chrono>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <random>
#include <pthread.h>
#include <sys/personality.h>

namespace sim {

// ================================================================ tape
static constexpr size_t TAPEMAX = 1u<<21;
struct Shared { uint64_t index; uint64_t len; uint64_t bh; int64_t simNs; uint64_t nontriv; uint64_t done; uint32_t tape[TAPEMAX]; };
static Shared* T = nullptr;
static bool replaying = false;
static std::vector<uint32_t>* rep = nullptr;
static uint64_t rngS[2];
static uint64_t splitmix(uint64_t& x) {
   uint64_t z = (x += 0x9E3779B97F4A7C15ull);
   z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
   z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
   return z ^ (z >> 31);
}
static uint64_t rnd() {
   uint64_t s1 = rngS[0]; const uint64_t s0 = rngS[1];
   const uint64_t r = s0 + s1;
   rngS[0] = s0; s1 ^= s1 << 23;
   rngS[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
   return r;
}
uint32_t draw(uint32_t n) {
   if (n == 0) n = 1;
   uint32_t v;
   if (replaying) v = (T->len < rep->size()) ? (*rep)[T->len] % n : 0;
   else v = (uint32_t)((rnd() >> 16) % n);
   if (T->len < TAPEMAX) T->tape[T->len] = v;
   T->len++;
   if (T->len > TAPEMAX) fail("no-progress",fmt("the run took more than %zu choices",TAPEMAX));
   return v;
}
size_t tapeLen() { return T->len; }

// ================================================================ reporting
static std::string outPath,propId;
static uint64_t seedV = 0;
static bool verb = false;
static std::vector<std::string>* notes = nullptr;
static uint64_t bh = 0;
static bool nontriv = false;
static std::map<std::string,uint64_t>* counters = nullptr;
static uint64_t runsDone = 0;
static bool isolate = false;

static thread_local int arenaOn = 0;   // depth counter
OffArena::OffArena() { _was = arenaOn; arenaOn = 0; }
OffArena::~OffArena() { arenaOn = _was; }

bool verbose() { return verb; }
void note(const std::string& s) { if (verb) { OffArena o; if (notes->size() < 4000) notes->push_back(std::string(s.c_str())); } }
void count(const char* what,uint64_t by) { OffArena o; (*counters)[what] += by; }
void mark(uint64_t h) { bh = mix(bh,h); }
uint64_t behaviour() { return bh; }
void nontrivial() { nontriv = true; }
std::string fmt(const char* f,...) {
   char buf[2048]; va_list ap; va_start(ap,f); vsnprintf(buf,sizeof buf,f,ap); va_end(ap); return buf;
}
uint64_t dbits(double d) { uint64_t u; memcpy(&u,&d,8); return u; }

static std::string esc(const std::string& s) {
   std::string r;
   for(char c : s) {
      if (c=='"' || c=='\\') { r += '\\'; r += c; }
      else if (c=='\n') r += "\\n";
      else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)c); r += b; }
      else r += c;
   }
   return r;
}
bool reporting = false;
static void record(const char* kind,const std::string& cls,const std::string& msg) {
   arenaOn = 0; reporting = true;
   FILE* f = fopen(outPath.c_str(),"a");
   if (!f) _exit(21);
   fprintf(f,"{\"kind\":\"%s\",\"property\":\"%s\",\"class\":\"%s\",\"msg\":\"%s\",\"seed\":%lu,\"index\":%lu,\"behaviour\":\"%016lx\",\"tape\":[",
           kind,propId.c_str(),esc(cls).c_str(),esc(msg).c_str(),seedV,(unsigned long)T->index,(unsigned long)bh);
   size_t n = T->len > TAPEMAX ? TAPEMAX : T->len;
   for(size_t i=0;i<n;i++) fprintf(f,i ? ",%u" : "%u",T->tape[i]);
   fprintf(f,"]");
   if (verb) {
      fprintf(f,",\"events\":[");
      for(size_t i=0;i<notes->size();i++) fprintf(f,"%s\"%s\"",i?",":"",esc((*notes)[i]).c_str());
      fprintf(f,"]");
   }
   fprintf(f,"}\n");
   fclose(f);
}
void fail(const std::string& cls,const std::string& msg) { record("violation",cls,msg); _exit(10); }
void broken(const std::string& msg) { record("broken","broken",msg); _exit(20); }

// ================================================================ heap
HeapCfg heapCfg;
static char* const ABASE = (char*)0x600000000000ull;
static constexpr size_t ASIZE = 768ull<<20;
static size_t lo,hi;                       // bump positions
static constexpr uint64_t MAGIC = 0xC0DDC0DDC0DDC0DDull, DEAD = 0xDEADDEADDEADDEADull;
struct Hdr { uint64_t magic; uint64_t size; Hdr* next; Hdr* prev; };   // 32 bytes
static Hdr* liveList = nullptr;
static uint64_t nLive=0,bLive=0,nAlloc=0;
static Hdr* freeL[64]; static Hdr* freeBig = nullptr;   // by size up to 1 KB; the rest in one list
static int64_t failIn = -1; static bool failSticky=false, failFired=false;
static uint64_t flip = 0;

uint64_t liveBlocks() { return nLive; }
uint64_t liveBytes() { return bLive; }
uint64_t heapAllocs() { return nAlloc; }
void armAllocFailure(int64_t c,bool sticky) { failIn = c; failSticky = sticky; failFired = false; }
void disarmAllocFailure() { failIn = -1; }
bool allocFailureFired() { return failFired; }

static void arenaInit() {
   void* p = mmap(ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
   if (p != ABASE) { perror("arena"); _exit(21); }
}
static void arenaReset() {
   heapCfg = HeapCfg(); lo = 0; hi = ASIZE; liveList = nullptr; nLive = bLive = nAlloc = 0;
   memset(freeL,0,sizeof freeL); freeBig = nullptr; failIn = -1; failFired = false; flip = 88172645463325252ull;
}
void drawHeap() {
   heapCfg.place = (int)draw(4);
   heapCfg.shift = draw(64);
   heapCfg.fill = (uint8_t)oneOf(std::vector<int>{0,0xFF,0xA5,0x01,0x7F,0xCD});
   heapCfg.pad = draw(4);
   lo += heapCfg.shift*16;
   flip ^= (uint64_t)heapCfg.shift*0x9E3779B97F4A7C15ull + heapCfg.pad;
   count(fmt("heap.place%d",heapCfg.place).c_str());
}
static size_t rnd16(size_t n) { return (n + 15) & ~size_t(15); }
static void* arenaAlloc(size_t sz) {
   nAlloc++;
   if (failIn > 0 && --failIn == 0) {
      failFired = true;
      if (failSticky) failIn = 1;
      return nullptr;
   }
   if (sz > (ASIZE<<3)) return nullptr;      // no machine has that much
   size_t body = rnd16(sz ? sz : 1);
   size_t tot = sizeof(Hdr) + body + 16;
   int cls = (int)(tot/16);
   Hdr* h = nullptr;
   size_t need = tot + heapCfg.pad*16;
   bool scarce = hi - lo < ASIZE/3 || lo + need > hi;       // even a heap that avoids reuse has to, in the end
   if (heapCfg.place == 0 || heapCfg.place == 3 || scarce) {
      if (cls < 64) { if (freeL[cls]) { h = freeL[cls]; freeL[cls] = h->next; } }
      else { int n = 0; for(Hdr** q = &freeBig;*q && n < 200;q = &(*q)->next,n++) if (sizeof(Hdr) + rnd16((*q)->size) + 16 == tot) { h = *q; *q = h->next; break; } }
   }
   if (!h) {
      if (lo + need > hi) fail("memory-exhausted",fmt("run allocated more than %zu MB",ASIZE>>20));
      bool up = true;
      if (heapCfg.place == 1 || heapCfg.place == 3) { flip ^= flip<<13; flip ^= flip>>7; flip ^= flip<<17; up = (flip>>20)&1; }
      if (up) { h = (Hdr*)(ABASE + lo); lo += need; }
      else { hi -= need; h = (Hdr*)(ABASE + hi); }
   }
   h->magic = MAGIC; h->size = sz; h->prev = nullptr; h->next = liveList;
   if (liveList) liveList->prev = h;
   liveList = h;
   nLive++; bLive += sz;
   char* p = (char*)(h+1);
   memset(p,heapCfg.fill,body);
   memset(p+sz,0x5C,sizeof(Hdr)+body+16 - sizeof(Hdr) - sz);
   return p;
}
static bool canaryOk(Hdr* h) {
   const unsigned char* p = (unsigned char*)(h+1);
   size_t body = rnd16(h->size ? h->size : 1);
   for(size_t i=h->size;i<body+16;i++) if (p[i] != 0x5C) return false;
   return true;
}
bool checkHeapCanaries(std::string& why) {
   for(Hdr* h = liveList;h;h=h->next) {
      if (h->magic != MAGIC) { why = "heap block header overwritten"; return false; }
      if (!canaryOk(h)) { why = fmt("write past the end of a %lu byte heap block",(unsigned long)h->size); return false; }
   }
   return true;
}
bool isLiveRange(const void* p,size_t n) {
   for(Hdr* h = liveList;h;h=h->next) {
      const char* b = (char*)(h+1);
      if ((const char*)p >= b && (const char*)p + n <= b + h->size) return true;
   }
   return false;
}
static void arenaFree(void* p) {
   Hdr* h = (Hdr*)p - 1;
   if (h->magic == DEAD) fail("double-free","heap block freed twice");
   if (h->magic != MAGIC) fail("heap-corruption","free of a pointer that is not a heap block (or its header was overwritten)");
   if (!canaryOk(h)) fail("heap-overflow",fmt("write past the end of a %lu byte heap block",(unsigned long)h->size));
   if (h->prev) h->prev->next = h->next; else liveList = h->next;
   if (h->next) h->next->prev = h->prev;
   nLive--; bLive -= h->size;
   size_t body = rnd16(h->size ? h->size : 1);
   size_t tot = sizeof(Hdr)+body+16;
   memset(p,0xDB,body > 65536 ? 65536 : body);
   h->magic = DEAD;
   int cls = (int)(tot/16);
   Hdr*& fl = cls < 64 ? freeL[cls] : freeBig;
   h->next = fl; fl = h;
}
static inline bool inArena(void* p) { return (char*)p >= ABASE && (char*)p < ABASE + ASIZE; }
} // namespace sim

static void* simNew(std::size_t sz) {
   if (sim::arenaOn) {
      sim::yieldPoint(2);
      void* p = sim::arenaAlloc(sz);
      if (!p) throw std::bad_alloc();
      return p;
   }
   void* p = malloc(sz ? sz : 1);
   if (!p) abort();
   return p;
}
static void simDel(void* p) noexcept {
   if (!p) return;
   if (sim::inArena(p)) sim::arenaFree(p);
   else free(p);
}
void* operator new(std::size_t sz) { return simNew(sz); }
void* operator new[](std::size_t sz) { return simNew(sz); }
void* operator new(std::size_t sz,const std::nothrow_t&) noexcept { try { return simNew(sz); } catch(...) { return nullptr; } }
void* operator new[](std::size_t sz,const std::nothrow_t&) noexcept { try { return simNew(sz); } catch(...) { return nullptr; } }
static void* simNewA(std::size_t sz,std::align_val_t al) {
   if ((size_t)al <= 16) return simNew(sz);
   void* p = nullptr; if (posix_memalign(&p,(size_t)al,sz ? sz : 1)) abort(); return p;
}
void* operator new(std::size_t sz,std::align_val_t a) { return simNewA(sz,a); }
void* operator new[](std::size_t sz,std::align_val_t a) { return simNewA(sz,a); }
void operator delete(void* p) noexcept { simDel(p); }
void operator delete[](void* p) noexcept { simDel(p); }
void operator delete(void* p,std::size_t) noexcept { simDel(p); }
void operator delete[](void* p,std::size_t) noexcept { simDel(p); }
void operator delete(void* p,std::align_val_t) noexcept { simDel(p); }
void operator delete[](void* p,std::align_val_t) noexcept { simDel(p); }
void operator delete(void* p,std::size_t,std::align_val_t) noexcept { simDel(p); }
void operator delete[](void* p,std::size_t,std::align_val_t) noexcept { simDel(p); }
void operator delete(void* p,const std::nothrow_t&) noexcept { simDel(p); }
void operator delete[](void* p,const std::nothrow_t&) noexcept { simDel(p); }

namespace sim {
// ================================================================ clocks
int64_t monoNs = 0, wallOffNs = 0;
ClockCfg clockCfg;
static uint64_t jumpsN = 0;
static int64_t elapsedNs = 0;              // simulated time that really passed in this run
void advance(int64_t ns) { monoNs += ns; elapsedNs += ns; }
void clockRead() {
   yieldPoint(3);
   if (clockCfg.jitter) {
      static const int64_t steps[] = {1000,0,1000000,30000000,700000000,2500000000ll,5000000000ll,6000000000ll,60000000000ll};
      advance(steps[draw(9)]);
   } else advance(clockCfg.readStepNs);
   if (clockCfg.jumps && chance(1,4)) {
      static const int64_t js[] = {-1000000000ll,-3600000000000ll,5000000000ll,7200000000000ll,-86400000000000ll,400000000ll};
      wallOffNs += js[draw(6)];
      count("fault.wall-clock-jump"); ++jumpsN;
   }
}
void drawClock(bool allowJumps) {
   clockCfg = ClockCfg();
   monoNs = (int64_t)oneOf(std::vector<int64_t>{1000000000ll,86400000000000ll,5ll});
   wallOffNs = 1700000000000000000ll;
   switch(draw(4)) {
      case 0: clockCfg.readStepNs = 1000; break;
      case 1: clockCfg.jitter = true; break;
      case 2: clockCfg.readStepNs = 40000000; break;
      case 3: clockCfg.readStepNs = 0; break;
   }
   clockCfg.callStepNs = oneOf(std::vector<int64_t>{0,1000,1000000,100000000});
   clockCfg.jumps = allowJumps && chance(1,3);
}

// ================================================================ console
Console console;
class CapBuf : public std::streambuf {
   bool put(char c) {
      if (console.failAfter >= 0 && (int64_t)console.bytes >= console.failAfter) { count("fault.console-write"); return false; }
      console.bytes++;
      if (!console.keep) return true;
      OffArena o;
      if (c == '\n') {
         console.lines.push_back({console.cur,monoNs});
         if (console.onLine) console.onLine(console.lines.back());
         console.cur.clear();
      } else console.cur += c;
      return true;
   }
protected:
   int overflow(int c) override { yieldPoint(4); if (c == EOF) return 0; return put((char)c) ? c : EOF; }
   std::streamsize xsputn(const char* s,std::streamsize n) override {
      yieldPoint(4);
      for(std::streamsize i=0;i<n;i++) if (!put(s[i])) return i;
      return n;
   }
   int sync() override { return (console.failAfter >= 0 && (int64_t)console.bytes >= console.failAfter) ? -1 : 0; }
};
static CapBuf* capbuf = nullptr;
static std::ios* pristine = nullptr;
void consoleReset() {
   OffArena o;
   console.lines.clear(); console.cur.clear(); console.failAfter = -1; console.bytes = 0; console.keep = true; console.onLine = nullptr;
   std::cout.exceptions(std::ios::goodbit);
   std::cout.clear();
   std::cout.copyfmt(*pristine);
}

// ================================================================ knobs
std::map<std::string,size_t> knobs;
void dfltKnobs() { OffArena o; knobs.clear(); }
void drawKnobs(bool small) {
   OffArena o;
   knobs.clear();
   if (!small && chance(1,2)) { count("knobs.shipped"); return; }
   if (draw(40) == 39) { count("knobs.shipped"); return; }          // the shipped capacities, now and then
   knobs["nodes"] = oneOf(std::vector<size_t>{547,2,1229});
   knobs["seen"] = oneOf(std::vector<size_t>{547,2,1229});
   knobs["frontier"] = oneOf(std::vector<size_t>{64,1,2,3,8});
   knobs["degrees"] = oneOf(std::vector<size_t>{64,1,2,3,8});
   knobs["queue"] = oneOf(std::vector<size_t>{32,1,2,4});
   knobs["layer"] = oneOf(std::vector<size_t>{128,1,2,3});
   knobs["segment"] = oneOf(std::vector<size_t>{65536,64,16,512,4096,100});
   count("knobs.small");
}

// ================================================================ scheduler
static constexpr int MAXT = 8;
struct Thr { std::condition_variable cv; bool done = false; };
static std::mutex schedM;
static Thr* thr = nullptr; static int nThr = 0, curThr = -1;
static bool schedOn = false;
static int64_t slice = 0;
static uint64_t nSwitch = 0;
static thread_local int myThr = -1, noYield = 0;
static thread_local bool inSched = false;
static uint64_t blockedTurns = 0;            // turns taken in a row by threads that only wait for a lock
static thread_local int guardDepth = 0, guardWas = 0;
// Preemption between any two basic blocks of the library and the model code (only in the binary that is compiled
// with -fsanitize-coverage=trace-pc): gaps of a drawn length, each followed by a burst of short slices.
static bool pcOn = false; static int64_t pcLeft = 0; static uint64_t pcSeen = 0, pcSwitches = 0, pcHorizon = 0; static int pcBurst = 0;
uint64_t blocksSeen() { return pcSeen; }
static void pcNext() {
   if (pcSwitches >= 400) { pcLeft = INT64_MAX; return; }
   if (pcBurst > 0) { pcBurst--; pcLeft = 1 + draw(oneOf(std::vector<uint32_t>{4,16,64,1000})); return; }
   int bits = 1; while ((1ull<<bits) < pcHorizon && bits < 22) bits++;
   pcBurst = (int)draw(6);
   pcLeft = 1 + draw(1u<<(1 + draw((uint32_t)bits)));
}
uint64_t switches() { return nSwitch; }
NoYield::NoYield() { noYield++; }
NoYield::~NoYield() { noYield--; }
static bool coarse = true;
static int64_t drawSlice() {
   static const int64_t s[] = {1000000,1,2,3,7,20,60,200};
   return s[draw(8)];
}
static int pickNext(int self) {
   int live[MAXT],n=0;
   for(int i=0;i<nThr;i++) if (!thr[i].done && i != self) live[n++] = i;
   if (n == 0) return -1;
   return live[draw((uint32_t)n)];
}
void yieldPoint(int kind) {
   if (!schedOn || myThr < 0 || noYield || myThr != curThr) return;
   if (kind != 9) { blockedTurns = 0; if (kind != 5 && --slice > 0) return; }
   OffArena o;
   struct In { In() { inSched = true; } ~In() { inSched = false; } } guard;
   std::unique_lock<std::mutex> lk(schedM);
   if (kind == 5) { pcNext(); pcSwitches++; } else slice = coarse ? drawSlice() : INT64_MAX;
   int nx = pickNext(myThr);
   if (nx < 0) return;
   if (kind == 5) count("schedule.block-preemption");
   nSwitch++;
   mark(mix(77,mix((uint64_t)kind,(uint64_t)nx)));
   count("schedule.switch");
   curThr = nx;
   thr[nx].cv.notify_one();
   thr[myThr].cv.wait(lk,[]{ return curThr == myThr; });
}
void runThreads(std::vector<std::function<void()>> bodies) {
   int was = arenaOn; arenaOn = 0;
   nThr = (int)bodies.size();
   thr = new Thr[nThr];
   nSwitch = 0; pcSwitches = 0; pcBurst = 0;
   int grain = pcSeen ? (int)draw(3) : 0;               // 0: at calls, 1: between blocks, 2: both
   coarse = grain != 1; slice = coarse ? drawSlice() : INT64_MAX;
   pcHorizon = pcSeen; pcOn = grain > 0; if (pcOn) { count("schedule.fine-runs"); pcNext(); }
   curThr = (int)draw((uint32_t)nThr);
   schedOn = true;
   std::vector<std::thread> ts;
   for(int i=0;i<nThr;i++)
      ts.emplace_back([i,&bodies,was] {
         myThr = i;
         inSched = true;
         { std::unique_lock<std::mutex> lk(schedM); thr[i].cv.wait(lk,[i]{ return curThr == i; }); }
         inSched = false;
         arenaOn = was;
         bodies[i]();
         arenaOn = 0; inSched = true;
         std::unique_lock<std::mutex> lk(schedM);
         thr[i].done = true; blockedTurns = 0;
         int nx = pickNext(i);
         if (nx >= 0) { slice = coarse ? drawSlice() : INT64_MAX; curThr = nx; thr[nx].cv.notify_one(); }
         myThr = -1;
      });
   for(auto& t : ts) t.join();
   schedOn = pcOn = false;
   delete[] thr; thr = nullptr;
   arenaOn = was;
}

// A lock of the code under test: the holder may have been switched out, so the waiter hands over its turn.
static int simLock(pthread_mutex_t* m,int (*lock)(pthread_mutex_t*)) {
   if (!schedOn || myThr < 0 || inSched || noYield) return lock(m);
   for(;;) {
      int r = pthread_mutex_trylock(m);
      if (r != EBUSY) return r;
      if (++blockedTurns > 10000) fail("deadlock","every thread waits for a lock");
      count("schedule.lock-wait");
      yieldPoint(9);
   }
}

// ================================================================ children
static int cpuLimit = 20;
static void armTimers() {
   struct itimerval it = {{0,0},{cpuLimit,0}}, wl = {{0,0},{5*cpuLimit,0}};
   setitimer(ITIMER_VIRTUAL,&it,nullptr); setitimer(ITIMER_REAL,&wl,nullptr);
}
void allowCpu(int s) { cpuLimit = s; armTimers(); }
bool terminateAllowed = false;
uint32_t* shm = nullptr;
static char* shmText = nullptr;
static constexpr size_t SHMTEXT = 1<<16;
static pid_t realFork() { return (pid_t)syscall(SYS_fork); }
static std::map<std::string,uint64_t>* childBase = nullptr;
static void childCounters() {
   size_t at = 0;
   for(auto& [k,v] : *counters) {
      auto i = childBase->find(k);
      uint64_t d = v - (i == childBase->end() ? 0 : i->second);
      if (d && at + k.size() + 32 < SHMTEXT) at += (size_t)snprintf(shmText+at,SHMTEXT-at,"%s %lu\n",k.c_str(),(unsigned long)d);
   }
   shmText[at] = 0;
}
static void absorbCounters() {
   char* p = shmText; char name[256]; unsigned long v; int n = 0;
   while (*p && sscanf(p,"%255s %lu\n%n",name,&v,&n) == 2) { (*counters)[name] += v; p += n; }
}
int inChild(const std::function<void()>& body) {
   int wasA = arenaOn; arenaOn = 0;
   memset(shm,0,4096); shmText[0] = 0;
   pid_t c = realFork();
   if (c < 0) broken("fork failed");
   if (c == 0) {
      armTimers();
      arenaOn = wasA;
      terminateAllowed = true;
      { OffArena o; childBase = new std::map<std::string,uint64_t>(*counters); }
      body();
      arenaOn = 0;
      childCounters();
      shm[1023] = 1;
      memcpy(&shm[1020],&bh,8);
      _exit(0);
   }
   int st = 0;
   while (waitpid(c,&st,0) < 0 && errno == EINTR) {}
   absorbCounters();
   arenaOn = wasA;
   if (WIFEXITED(st)) {
      int rc = WEXITSTATUS(st);
      if (rc == 0 && shm[1023] == 1) { uint64_t h; memcpy(&h,&shm[1020],8); mark(h); return 0; }
      if (rc == 77) return 1;
      if (rc == 10 || rc == 20) _exit(rc);        // already reported
      fail("process-exit",fmt("the process ended by itself with status %d",rc));
   }
   fail("crash",fmt("the process was killed by signal %d",WIFSIGNALED(st) ? WTERMSIG(st) : -1));
}
static void onTerminate() {
   if (terminateAllowed) { arenaOn = 0; if (childBase) childCounters(); _exit(77); }
   arenaOn = 0;
   std::string why = "std::terminate was called";
   try { if (auto e = std::current_exception()) std::rethrow_exception(e); }
   catch(std::exception& e) { why += std::string(" with ") + e.what(); }
   catch(...) {}
   fail("terminate",why);
}
static void onSignal(int sig) {
   arenaOn = 0;
   signal(SIGALRM,SIG_DFL); alarm(10);        // should reporting hang
   if (sig == SIGALRM) fail("no-progress",fmt("the run was stuck for more than %d s",5*cpuLimit));
   const char* n = sig==SIGSEGV ? "SIGSEGV" : sig==SIGBUS ? "SIGBUS" : sig==SIGFPE ? "SIGFPE" : sig==SIGILL ? "SIGILL" : sig==SIGABRT ? "SIGABRT" : "SIGVTALRM";
   if (sig == SIGVTALRM) fail("no-progress",fmt("the run used more than %d s of processor time",cpuLimit));
   fail(std::string("crash:")+n,std::string("the process received ")+n);
}

// ================================================================ registry
static std::map<std::string,PropFn>& reg() { static std::map<std::string,PropFn> r; return r; }
Reg::Reg(const char* id,PropFn f) { reg()[id] = f; }
PropFn find(const std::string& id) { auto i = reg().find(id); return i == reg().end() ? nullptr : i->second; }

static void startRun(uint64_t index) {
   T->index = index; T->len = 0;
   uint64_t x = seedV*0x9E3779B97F4A7C15ull ^ (index+1)*0xD1B54A32D192ED03ull;
   for(char c : propId) x = mix(x,(uint64_t)c);
   rngS[0] = splitmix(x); rngS[1] = splitmix(x);
   bh = 1469598103934665603ull; nontriv = false;
   notes->clear();
   arenaReset(); pcSeen = 0;
   elapsedNs = 0; monoNs = 1000000000; wallOffNs = 1700000000000000000ll; clockCfg = ClockCfg();
   knobs.clear();
   terminateAllowed = false;
   consoleReset();
}
static void oneRun(PropFn f,uint64_t index) {
   startRun(index);
   cpuLimit = 20; armTimers();
   arenaOn = 1;
   std::cout.rdbuf(capbuf);
   try { f(); }
   catch(std::exception& e) { arenaOn = 0; fail("uncaught-exception",std::string("unexpected exception: ")+e.what()); }
   catch(...) { arenaOn = 0; fail("uncaught-exception","unexpected exception"); }
   arenaOn = 0;
   std::string why;
   if (!checkHeapCanaries(why)) fail("heap-overflow",why);
   if (nLive && !isolate) { if (getenv("SIM_LEAK")) for(Hdr* h = liveList;h;h=h->next) fprintf(stderr,"left: %lu bytes [%.40s]\n",(unsigned long)h->size,(char*)(h+1)); _exit(30); }          // something outlived the run: runs are not independent in one process
   runsDone++;
}
// The same run in a process of its own: nothing a run leaves behind can reach the next one.
static void oneRunIsolated(PropFn f,uint64_t index) {
   T->done = 0; shmText[0] = 0;
   pid_t c = realFork();
   if (c < 0) broken("fork failed");
   if (c == 0) {
      delete childBase; childBase = new std::map<std::string,uint64_t>(*counters);
      oneRun(f,index);
      childCounters();
      T->bh = bh; T->simNs = elapsedNs; T->nontriv = nontriv; T->done = 1;
      _exit(0);
   }
   int st = 0;
   while (waitpid(c,&st,0) < 0 && errno == EINTR) {}
   if (!WIFEXITED(st)) { T->index = index; fail("crash",fmt("the process was killed by signal %d",WIFSIGNALED(st) ? WTERMSIG(st) : -1)); }
   int rc = WEXITSTATUS(st);
   if (rc != 0) { if (rc == 10 || rc == 20) _exit(rc); T->index = index; fail("process-exit",fmt("the process ended by itself with status %d",rc)); }
   if (!T->done) { T->index = index; fail("process-exit","the process ended by itself with status 0"); }
   absorbCounters();
   bh = T->bh; elapsedNs = T->simNs; nontriv = T->nontriv; runsDone++;
}
} // namespace sim

extern "C" void __sanitizer_cov_trace_pc() {
   using namespace sim;
   if (!arenaOn) return;
   if (!pcOn) { pcSeen++; return; }
   if (myThr != curThr || myThr < 0 || noYield || inSched || --pcLeft > 0) return;
   yieldPoint(5);
}

// see guards.cpp
extern "C" void sim_static_begin() { if (sim::guardDepth++ == 0) { sim::guardWas = sim::arenaOn; sim::arenaOn = 0; sim::noYield++; } }
extern "C" void sim_static_end() { if (--sim::guardDepth == 0) { sim::arenaOn = sim::guardWas; sim::noYield--; } }

extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
   static int (*r)(pthread_mutex_t*) = nullptr;
   if (!r) { void* p = dlsym(RTLD_NEXT,"pthread_mutex_lock"); memcpy(&r,&p,sizeof r); }
   return sim::simLock(m,r);
}
namespace std { unsigned int random_device::_M_getval() { return sim::draw(0xffffffffu); } }   // randomness comes from the tape

extern "C" std::size_t codd_sim_knob(const char* name,std::size_t dflt) noexcept {
   auto i = sim::knobs.find(name);
   return i == sim::knobs.end() ? dflt : i->second;
}

// ---------------------------------------------------------------- clock seams
using namespace std::chrono;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
   sim::clockRead();
   return time_point(duration_cast<system_clock::duration>(nanoseconds(sim::monoNs + sim::wallOffNs)));
}
steady_clock::time_point steady_clock::now() noexcept {
   sim::clockRead();
   return time_point(nanoseconds(sim::monoNs));
}
}}}
extern "C" int clock_gettime(clockid_t id,struct timespec* ts) noexcept {
   if (!sim::arenaOn) return (int)syscall(SYS_clock_gettime,id,ts);
   sim::clockRead();
   int64_t t = sim::monoNs + (id == CLOCK_REALTIME ? sim::wallOffNs : 0);
   ts->tv_sec = t/1000000000; ts->tv_nsec = t%1000000000; return 0;
}
extern "C" int gettimeofday(struct timeval* tv,void*) noexcept {
   if (!sim::arenaOn) { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000; return 0; }
   sim::clockRead(); int64_t t = sim::monoNs + sim::wallOffNs; tv->tv_sec = t/1000000000; tv->tv_usec = t%1000000000/1000; return 0;
}
extern "C" time_t time(time_t* out) noexcept {
   time_t r;
   if (!sim::arenaOn) { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); r = ts.tv_sec; }
   else { sim::clockRead(); r = (sim::monoNs + sim::wallOffNs)/1000000000; }
   if (out) *out = r;
   return r;
}
extern "C" clock_t clock(void) noexcept { sim::clockRead(); return sim::monoNs/1000; }

// ---------------------------------------------------------------- main
static std::vector<uint32_t> readTape(const char* fn) {
   std::vector<uint32_t> v; FILE* f = fopen(fn,"r"); if (!f) { perror(fn); _exit(21); }
   unsigned x; while (fscanf(f,"%u",&x) == 1) v.push_back(x);
   fclose(f); return v;
}
int main(int argc,char** argv) {
   using namespace sim;
   uint64_t from=0,to=1,step=1,dbl=0; const char* tape=nullptr; const char* statf=nullptr; const char* hashf=nullptr; const char* hashlog=nullptr;
   double maxS = 1e9;
   for(int i=1;i<argc;i++) {
      std::string a = argv[i];
      auto nx = [&]() { if (i+1>=argc) { fprintf(stderr,"missing value\n"); _exit(21);} return argv[++i]; };
      if (a=="--prop") propId = nx();
      else if (a=="--seed") seedV = strtoull(nx(),0,10);
      else if (a=="--from") from = strtoull(nx(),0,10);
      else if (a=="--to") to = strtoull(nx(),0,10);
      else if (a=="--step") step = strtoull(nx(),0,10);
      else if (a=="--double") dbl = strtoull(nx(),0,10);       // every n-th run is run twice and compared
      else if (a=="--tape") tape = nx();
      else if (a=="--out") outPath = nx();
      else if (a=="--stats") statf = nx();
      else if (a=="--hashes") hashf = nx();
      else if (a=="--hashlog") hashlog = nx();
      else if (a=="--max-s") maxS = atof(nx());
      else if (a=="--verbose") verb = true;
      else if (a=="--isolate") isolate = true;
      else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 21; }
   }
   int per = personality(0xffffffff);         // the same addresses in every process (where the kernel lets us)
   if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
      setenv("SIM_REEXEC","1",1);
      if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) != -1) syscall(SYS_execve,"/proc/self/exe",argv,environ);
   }
   T = (Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
   shm = (uint32_t*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
   shmText = (char*)mmap(nullptr,SHMTEXT,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
   notes = new std::vector<std::string>; counters = new std::map<std::string,uint64_t>;
   capbuf = new CapBuf; pristine = new std::ios(nullptr); pristine->copyfmt(std::cout);
   auto realbuf = std::cout.rdbuf();
   arenaInit();
   static char alt[1<<16];
   stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss,nullptr);
   struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK|SA_NODEFER;
   for(int s : {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGVTALRM,SIGALRM}) sigaction(s,&sa,nullptr);
   std::set_terminate(onTerminate);
   PropFn f = find(propId);
   if (!f) { fprintf(stderr,"no scenario %s\n",propId.c_str()); return 21; }
   if (outPath.empty()) outPath = "/dev/stderr";
   std::unordered_set<uint64_t> seen; uint64_t nt=0; __int128 simT=0; uint64_t doubles=0;
   std::vector<uint64_t> ids;
   if (tape) { replaying = true; rep = new std::vector<uint32_t>(readTape(tape)); to = from+1; }
   struct timespec w0; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&w0);
   const char* slow = getenv("SIM_SLOW");     // report runs that take longer than that many seconds
   FILE* hl = hashlog ? fopen(hashlog,"w") : nullptr;
   uint64_t lastIdx = from;
   for(uint64_t i=from;i<to;i+=step) {
      auto go = isolate ? oneRunIsolated : oneRun;
      struct timespec c0; if (slow) syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&c0);
      go(f,i);
      if (slow) { struct timespec c1; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&c1); double d = (c1.tv_sec - c0.tv_sec) + 1e-9*(c1.tv_nsec - c0.tv_nsec); if (d > atof(slow)) fprintf(stderr,"slow: %s run %lu took %.2f s, tape %lu\n",propId.c_str(),(unsigned long)i,d,(unsigned long)T->len); }
      lastIdx = i;
      simT += elapsedNs;
      uint64_t h = bh; bool n = nontriv;
      if (hl) fprintf(hl,"%lu %016lx %zu\n",(unsigned long)i,(unsigned long)h,(size_t)T->len);
      if (n) { nt++; if (seen.insert(h).second) ids.push_back(h); }
      if (dbl && (i/step) % dbl == 0) {
         auto keep = *counters; uint64_t l1 = T->len;
         go(f,i); runsDone--; doubles++;
         *counters = keep;
         if (bh != h || T->len != l1) broken(fmt("run %lu is not deterministic: %016lx then %016lx",(unsigned long)i,(unsigned long)h,(unsigned long)bh));
      }
      struct timespec w1; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&w1);
      if ((w1.tv_sec - w0.tv_sec) + 1e-9*(w1.tv_nsec - w0.tv_nsec) > maxS) break;
   }
   std::cout.rdbuf(realbuf);
   if (hl) fclose(hl);
   if (hashf) { FILE* o = fopen(hashf,"wb"); fwrite(ids.data(),8,ids.size(),o); fclose(o); }
   if (statf) {
      FILE* o = fopen(statf,"w");
      fprintf(o,"{\"runs\":%lu,\"nontrivial\":%lu,\"distinct\":%zu,\"doubles\":%lu,\"sim_ms\":%.0f,\"last\":%lu,\"counters\":{",
              (unsigned long)runsDone,(unsigned long)nt,seen.size(),(unsigned long)doubles,(double)(simT/1000000),(unsigned long)lastIdx);
      bool first = true;
      for(auto& [k,v] : *counters) { fprintf(o,"%s\"%s\":%lu",first?"":",",k.c_str(),(unsigned long)v); first = false; }
      fprintf(o,"}");
      if (verb) {
         fprintf(o,",\"events\":[");
         for(size_t i=0;i<notes->size();i++) fprintf(o,"%s\"%s\"",i?",":"",esc((*notes)[i]).c_str());
         fprintf(o,"]");
      }
      fprintf(o,"}\n");
      fclose(o);
   }
   return 0;
}
