// Deterministic simulator for CODD: choice tape, simulated environment, violation reporting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <iosfwd>
#include <exception>

namespace sim {

// ---------------------------------------------------------------- choice tape
// Every decision of a run (instance data, knobs, faults, clock steps, schedule) is one draw.
// In search mode the draw comes from a PRNG seeded by (VERIF_SEED, property, run index) and is
// recorded; in replay mode it comes from the recorded tape (past the end: 0, the simplest choice).
uint32_t draw(uint32_t n);                       // uniform in [0,n)
inline int  pick(int lo,int hi)                  { return lo + (int)draw((uint32_t)(hi-lo+1)); }
inline bool chance(uint32_t num,uint32_t den)    { return draw(den) >= den - num; }   // 0 -> false
template <class T> const T& oneOf(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }
size_t tapeLen();

// ---------------------------------------------------------------- reporting
[[noreturn]] void fail(const std::string& cls,const std::string& msg);   // property violated
void allowCpu(int seconds);                                 // a run may take 20 s of processor time unless it says otherwise
[[noreturn]] void broken(const std::string& msg);                        // the harness is at fault
bool verbose();
extern bool reporting;                           // the simulator itself is writing: no seam applies
void note(const std::string& s);                 // human readable trace (replay only)
void count(const char* what,uint64_t by = 1);    // probes and fault counters
void mark(uint64_t h);                           // contributes to the run's behaviour hash
uint64_t behaviour();
void nontrivial();                               // this run really exercised the property
std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));

inline uint64_t mix(uint64_t h,uint64_t v) {
   h ^= v + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2);
   h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
   return h;
}
uint64_t dbits(double d);

// ---------------------------------------------------------------- heap
struct HeapCfg {
   int  place = 0;      // 0: bump up with reuse, 1: both ends, 2: never reuse, 3: both ends + reuse
   uint32_t shift = 0;  // arena offset in 16 byte units
   uint8_t  fill = 0;   // what fresh memory looks like
   uint32_t pad = 0;    // extra spacing between blocks (16 byte units)
};
extern HeapCfg heapCfg;
void drawHeap();                         // choose a heap configuration from the tape
uint64_t liveBlocks();
uint64_t liveBytes();
uint64_t heapAllocs();                   // allocations so far in this run
void armAllocFailure(int64_t countdown,bool sticky = false); // the countdown-th allocation from now throws bad_alloc
void disarmAllocFailure();
bool allocFailureFired();
bool checkHeapCanaries(std::string& why);
bool isLiveRange(const void* p,size_t n); // [p,p+n) inside one live block?
struct OffArena { OffArena(); ~OffArena(); bool _was; };   // harness allocations outside the accounting

// ---------------------------------------------------------------- clocks
extern int64_t monoNs;                   // simulated monotonic time
extern int64_t wallOffNs;                // simulated wall clock = monoNs + wallOffNs
struct ClockCfg {
   int64_t readStepNs = 1000;            // every clock read costs that much
   int64_t callStepNs = 0;               // every model closure call costs that much
   bool jitter = false;                  // draw read steps from the tape
   bool jumps = false;                   // wall clock steps forwards/backwards
};
extern ClockCfg clockCfg;
void drawClock(bool allowJumps);
void clockRead();
void advance(int64_t ns);

// ---------------------------------------------------------------- console
struct Line { std::string text; int64_t at; };
struct Console {
   std::vector<Line> lines;              // complete lines
   std::string cur;
   int64_t failAfter = -1;               // bytes accepted before the device fails (-1: never)
   uint64_t bytes = 0;
   bool keep = true;
   std::function<void(const Line&)> onLine;
};
extern Console console;
void consoleReset();                     // clears the capture and the state of std::cout

// ---------------------------------------------------------------- knobs
extern std::map<std::string,size_t> knobs;
void drawKnobs(bool small = true);
void dfltKnobs();

// ---------------------------------------------------------------- schedule (cooperative threads)
void yieldPoint(int kind);               // may switch threads
void runThreads(std::vector<std::function<void()>> bodies);  // deterministic baton scheduler
uint64_t switches();
struct NoYield { NoYield(); ~NoYield(); };

// ---------------------------------------------------------------- misc
extern bool terminateAllowed;            // std::terminate is a legal (fail-stop) end of this process
// Runs body in a forked child. Returns 0: completed, 1: fail-stop (terminate), and never returns if
// the child reported a violation.
int inChild(const std::function<void()>& body);
extern uint32_t* shm;                    // small shared memory between parent and child (1024 words)

typedef void (*PropFn)();
struct Reg { Reg(const char* id,PropFn f); };
PropFn find(const std::string& id);

struct Boom : std::exception { const char* what() const noexcept override { return "injected exception"; } };

}
