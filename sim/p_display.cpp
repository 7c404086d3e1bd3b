// C15: displaying a diagram. The operating system is simulated: files live in anonymous memory, a
// process that is started runs at once up to its exec, exit or (wrongly) its return into the caller's
// code, the programs it would run are stand-ins that only record how they were called.
#include "hist.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <spawn.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;

namespace {
constexpr int MAXF = 4, MAXP = 8, KEEP = 900;
struct Proc { int used, execed, renderer, reaped, status; };
struct World {                       // shared between the simulated processes
   int procs, renders, views; Proc p[MAXP]; int exitHandlers, faulted;
};
struct SimFile { char name[256]; int keep; ino_t ino; dev_t dev; };
struct Disp {
   bool on = false; World* w = nullptr; pid_t top = 0; int me = -1;      // me: index of the simulated process, -1 the caller
   SimFile f[MAXF]; int nf = 0;
   uint32_t fMk = 0,fOpen = 0,fWrite = 0,fFork = 0,fExec = 0,fWait = 0;   // fault rates in 1/8
   int64_t room = -1; bool full = false;
   std::multiset<std::string> nodes, arcs;                                // what a complete description contains
} D;

void fault(const char* what) { count(what); D.w->faulted = 1; note(fmt("  fault: %s%s",what,D.me >= 0 ? " (in the child)" : "")); }
SimFile* byName(const char* n) { for(int i=0;i<D.nf;i++) if (!strcmp(D.f[i].name,n)) return &D.f[i]; return nullptr; }
SimFile* byFd(int fd) {
   struct stat s; if (fstat(fd,&s)) return nullptr;
   for(int i=0;i<D.nf;i++) if (D.f[i].ino == s.st_ino && D.f[i].dev == s.st_dev && fd != D.f[i].keep) return &D.f[i];
   return nullptr;
}
bool stillOpen(SimFile* f) { for(int fd=3;fd<256;fd++) if (fcntl(fd,F_GETFD) >= 0 && byFd(fd) == f) return true; return false; }
std::set<int> openFds() { std::set<int> r; for(int fd=0;fd<256;fd++) if (fcntl(fd,F_GETFD) >= 0) r.insert(fd); return r; }

std::string contents(SimFile* f) {
   std::string s; char b[4096]; off_t at = 0; ssize_t n;
   while ((n = pread(f->keep,b,sizeof b,at)) > 0) { s.append(b,(size_t)n); at += n; }
   return s;
}
// Reads a description: quoted names, arrows and labels; the rest of the syntax does not matter.
bool parse(const std::string& txt,std::multiset<std::string>& nodes,std::multiset<std::string>& arcs,std::string& why) {
   if (txt.find("digraph") == std::string::npos) { why = "it has no beginning"; return false; }
   auto e = txt.find_last_not_of(" \n\t");
   if (e == std::string::npos || txt[e] != '}') { why = "it has no end"; return false; }
   std::istringstream is(txt.substr(0,e)); std::string l;
   while (std::getline(is,l)) {
      std::vector<std::string> q; bool arrow = false, labelled = false; size_t i = 0; bool first = true, node = false; std::string label;
      while (i < l.size()) {
         if (l[i] == '"') {
            auto j = l.find('"',i+1); if (j == std::string::npos) { why = "a name is cut short"; return false; }
            std::string t = l.substr(i+1,j-i-1);
            if (first) node = true;
            if (labelled) { label = t; labelled = false; } else q.push_back(t);
            i = j+1;
         } else if (l.compare(i,2,"->") == 0) { arrow = true; i += 2; }
         else if (l.compare(i,5,"label") == 0) { labelled = true; i += 5; }
         else i++;
         if (i > 0 && !isspace((unsigned char)l[i-1])) first = false;
      }
      if (arrow && q.size() >= 2) arcs.insert(q[0] + "\1" + label + "\1" + q[1]);
      else if (node && !q.empty()) nodes.insert(q[0]);
   }
   return true;
}
void checkComplete(SimFile* f) {
   OffArena o;
   std::multiset<std::string> n,a; std::string why;
   std::string txt = contents(f);
   if (!parse(txt,n,a,why)) fail("incomplete-file",fmt("the renderer is started on an incomplete description: %s (%zu bytes)",why.c_str(),txt.size()));
   for(auto& x : D.nodes) if (n.count(x) == 0) fail("missing-state",fmt("state %s of the diagram is not in the description",x.c_str()));
   for(auto& x : D.arcs) if (a.count(x) != D.arcs.count(x)) fail("missing-arc",fmt("arc %s of the diagram occurs %zu times in the description, expected %zu",x.c_str(),a.count(x),D.arcs.count(x)));
   if (n.size() < D.nodes.size()) fail("missing-state",fmt("the description has %zu states, the diagram %zu",n.size(),D.nodes.size()));
}
void started(const std::vector<std::string>& args) {     // a program takes over this process
   for(auto& a : args) {
      SimFile* f = byName(a.c_str());
      if (f) {
         if (stillOpen(f)) fail("file-open","the renderer is started while the file is still open");
         checkComplete(f);
         D.w->renders++;
         if (D.me >= 0) D.w->p[D.me].renderer = 1;
         count("renderer-started");
         return;
      }
   }
   bool view = false;
   for(auto& a : args) for(int i=0;i<D.nf;i++) if (a.rfind(D.f[i].name,0) == 0) view = true;
   if (!view && args.size() > 1) fail("wrong-file",fmt("%s is started on %s, which this call did not create",args[0].c_str(),args.back().c_str()));
   D.w->views++; count("viewer-started");
   for(int i=0;i<D.w->procs;i++) if (D.w->p[i].renderer && !D.w->p[i].reaped && i != D.me) fail("viewer-early","the viewer is started while the renderer is still running");
}
int doExec(const std::vector<std::string>& args) {
   if (D.me < 0) fail("caller-replaced","the calling process was replaced by another program");
   if (chance(D.fExec,8)) { fault("fault.exec"); errno = oneOf(std::vector<int>{ENOENT,EACCES,ENOMEM}); return -1; }
   note(fmt("  child %d runs %s",D.me,args.empty() ? "?" : args[0].c_str()));
   started(args);
   D.w->p[D.me].execed = 1;
   _exit(0);
}
pid_t doFork() {
   if (chance(D.fFork,8)) { fault("fault.fork"); errno = oneOf(std::vector<int>{EAGAIN,ENOMEM}); return -1; }
   if (D.w->procs >= MAXP) fail("fork-bomb","more than eight processes were started");
   int id = D.w->procs++; D.w->p[id] = Proc{1,0,0,0,0};
   pid_t c = (pid_t)syscall(SYS_fork);
   if (c < 0) broken("fork failed");
   if (c == 0) { D.me = id; return 0; }
   int st = 0;
   while (syscall(SYS_wait4,c,&st,0,nullptr) < 0 && errno == EINTR) {}
   if (WIFSIGNALED(st)) fail("crash",fmt("a child process was killed by signal %d",WTERMSIG(st)));
   int rc = WEXITSTATUS(st);
   if (rc == 10 || rc == 20 || rc == 21) _exit(rc);     // reported by the child
   if (D.w->exitHandlers) fail("exit-handlers","a child process that could not run its program executed the caller's exit handlers");
   D.w->p[id].status = D.w->p[id].execed ? (int)oneOf(std::vector<int>{0,0,1,9}) : rc;
   note(D.w->p[id].execed ? fmt("  child %d runs the %s",id,D.w->p[id].renderer ? "renderer" : "viewer") : fmt("  child %d could not run its program and ended with status %d",id,rc));
   count(D.w->p[id].execed ? "child-ran-program" : "child-gave-up");
   return 4000 + id;
}
pid_t doWait(pid_t pid,int* st) {
   if (pid <= 0) fail("waits-for-others",fmt("it waits for process %d, that is for any child of the caller",(int)pid));
   int id = pid - 4000;
   if (id < 0 || id >= D.w->procs) fail("waits-for-others",fmt("it waits for process %d which it did not start",(int)pid));
   if (chance(D.fWait,8)) { fault("fault.wait-interrupted"); errno = EINTR; return -1; }
   if (D.w->p[id].reaped) { errno = ECHILD; return -1; }
   D.w->p[id].reaped = 1;
   if (st) *st = D.w->p[id].status == 9 ? 9 : D.w->p[id].status << 8;
   return pid;
}
int doMkstemp(char* t,size_t suffix) {
   size_t n = strlen(t);
   if (n < 6 + suffix || strncmp(t+n-6-suffix,"XXXXXX",6)) { errno = EINVAL; return -1; }
   if (chance(D.fMk,8)) { fault("fault.mkstemp"); errno = oneOf(std::vector<int>{EMFILE,ENOSPC,EACCES,EROFS}); return -1; }
   if (D.nf >= MAXF) broken("too many simulated files");
   SimFile& f = D.f[D.nf];
   int fd = memfd_create("sim",0); if (fd < 0) broken("memfd");
   f.keep = fcntl(fd,F_DUPFD,KEEP); close(fd); if (f.keep < KEEP) broken("dup");
   struct stat s; fstat(f.keep,&s); f.ino = s.st_ino; f.dev = s.st_dev;
   snprintf(t+n-6-suffix,7,"s%05d",D.nf + 17); if (suffix) t[n-suffix] = '.';
   snprintf(f.name,sizeof f.name,"%s",t); D.nf++;
   char p[64]; snprintf(p,sizeof p,"/proc/self/fd/%d",f.keep);
   return (int)syscall(SYS_openat,AT_FDCWD,p,O_RDWR,0);
}
// Opening a file by name: 0 not ours, 1 redirected to p, -1 refused
int doOpen(const char* name,bool writes,char* p,size_t n) {
   SimFile* f = byName(name);
   if (!f) {
      if (writes && strncmp(name,"/dev/",5) && strncmp(name,"/proc/",6)) fail("not-private",fmt("it writes to %s, a file it did not create for itself",name));
      return 0;
   }
   if (chance(D.fOpen,8)) { fault("fault.open"); errno = oneOf(std::vector<int>{EMFILE,ENFILE,EACCES}); return -1; }
   snprintf(p,n,"/proc/self/fd/%d",f->keep);
   return 1;
}
template <class F> F real(const char* n) { static_assert(sizeof(F) == sizeof(void*)); void* p = dlsym(RTLD_NEXT,n); F f; memcpy(&f,&p,sizeof f); return f; }
}

#define ON (D.on && !reporting)
extern "C" {
pid_t fork(void) noexcept { if (!ON) return (pid_t)syscall(SYS_fork); return doFork(); }
pid_t vfork(void) noexcept { if (!ON) return (pid_t)syscall(SYS_fork); return doFork(); }
pid_t waitpid(pid_t p,int* st,int opt) { if (!ON) return (pid_t)syscall(SYS_wait4,p,st,opt,nullptr); return doWait(p,st); }
pid_t wait(int* st) { if (!ON) return (pid_t)syscall(SYS_wait4,-1,st,0,nullptr); return doWait(-1,st); }
#define COLLECT(first) std::vector<std::string> a; { OffArena o; va_list ap; va_start(ap,first); const char* x = first; while (x) { a.push_back(x); x = va_arg(ap,const char*); } va_end(ap); }
int execlp(const char*,const char* arg,...) noexcept { COLLECT(arg); if (!ON) { errno = ENOSYS; return -1; } return doExec(a); }
int execl(const char*,const char* arg,...) noexcept { COLLECT(arg); if (!ON) { errno = ENOSYS; return -1; } return doExec(a); }
static int execV(char* const argv[]) { std::vector<std::string> a; { OffArena o; for(int i=0;argv[i];i++) a.push_back(argv[i]); } if (!ON) { errno = ENOSYS; return -1; } return doExec(a); }
int execvp(const char*,char* const argv[]) noexcept { return execV(argv); }
int execv(const char*,char* const argv[]) noexcept { return execV(argv); }
int execve(const char*,char* const argv[],char* const[]) noexcept { return execV(argv); }
static int spawn(pid_t* pid,char* const argv[]) {
   if (!ON) return ENOSYS;
   if (chance(D.fFork,8)) { fault("fault.fork"); return EAGAIN; }
   if (chance(D.fExec,8)) { fault("fault.exec"); return ENOENT; }
   std::vector<std::string> a; { OffArena o; for(int i=0;argv[i];i++) a.push_back(argv[i]); }
   if (D.w->procs >= MAXP) fail("fork-bomb","more than eight processes were started");
   int id = D.w->procs++; D.w->p[id] = Proc{1,1,0,0,0};
   int me = D.me; D.me = id; started(a); D.me = me;
   if (pid) *pid = 4000 + id;
   return 0;
}
int posix_spawnp(pid_t* pid,const char*,const posix_spawn_file_actions_t*,const posix_spawnattr_t*,char* const argv[],char* const[]) { return spawn(pid,argv); }
int posix_spawn(pid_t* pid,const char*,const posix_spawn_file_actions_t*,const posix_spawnattr_t*,char* const argv[],char* const[]) { return spawn(pid,argv); }
int mkstemp(char* t) { if (!ON) { errno = ENOSYS; return -1; } return doMkstemp(t,0); }
int mkstemp64(char* t) { return mkstemp(t); }
int mkostemp(char* t,int) { return mkstemp(t); }
int mkostemp64(char* t,int) { return mkstemp(t); }
int mkstemps(char* t,int s) { if (!ON) { errno = ENOSYS; return -1; } return doMkstemp(t,(size_t)s); }
FILE* fopen64(const char* n,const char* m) {
   static auto r = real<FILE* (*)(const char*,const char*)>("fopen64");
   char p[64];
   if (ON) { int k = doOpen(n,strpbrk(m,"wa+") != nullptr,p,sizeof p); if (k < 0) return nullptr; if (k > 0) n = p; }
   return r(n,m);
}
FILE* fopen(const char* n,const char* m) { return fopen64(n,m); }
int open(const char* n,int fl,...) {
   va_list ap; va_start(ap,fl); mode_t mode = (fl & O_CREAT) ? va_arg(ap,mode_t) : 0; va_end(ap);
   char p[64];
   if (ON) { int k = doOpen(n,(fl & O_ACCMODE) != O_RDONLY,p,sizeof p); if (k < 0) return -1; if (k > 0) { n = p; fl &= ~(O_CREAT|O_EXCL|O_NOFOLLOW); } }
   return (int)syscall(SYS_openat,AT_FDCWD,n,fl,mode);
}
int open64(const char* n,int fl,...) {
   va_list ap; va_start(ap,fl); mode_t mode = (fl & O_CREAT) ? va_arg(ap,mode_t) : 0; va_end(ap);
   return open(n,fl,mode);
}
// Writing to a simulated file: short writes, interrupted calls, a full disk.
static ssize_t simWrite(int fd,const void* b,size_t n) {
   if (n == 0) return 0;
   if (D.full || (D.room >= 0 && D.room == 0)) { if (!D.full) fault("fault.disk-full"); D.full = true; errno = ENOSPC; return -1; }
   if (chance(D.fWrite,8)) {
      if (chance(1,3)) { count("fault.write-interrupted"); note("  fault: interrupted write"); errno = EINTR; return -1; }
      count("fault.short-write"); note("  fault: short write"); n = 1 + draw((uint32_t)std::min<size_t>(n,5000));
   }
   if (D.room >= 0) { n = std::min<size_t>(n,(size_t)D.room); D.room -= (int64_t)n; }
   return syscall(SYS_write,fd,b,n);
}
ssize_t write(int fd,const void* b,size_t n) { if (ON && byFd(fd)) return simWrite(fd,b,n); return syscall(SYS_write,fd,b,n); }
ssize_t writev(int fd,const struct iovec* v,int c) {
   if (ON && byFd(fd)) {
      ssize_t t = 0;
      for(int i=0;i<c;i++) { ssize_t k = simWrite(fd,v[i].iov_base,v[i].iov_len); if (k < 0) return t > 0 ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; }
      return t;
   }
   return syscall(SYS_writev,fd,v,c);
}
}

static void exitHandler() { if (D.on && D.w) { D.w->exitHandlers++; } }

struct Graph { std::vector<ANode::Ptr> n; std::multiset<std::string> nodes,arcs,edges; std::string text; };
static Graph graphOf(const AbstractDD::Ptr& dd) {
   OffArena o; Graph g; std::set<ANode*> seen; std::vector<ANode*> st;
   ANode::Ptr r = dd->getRoot(); st.push_back(r.get()); seen.insert(r.get());
   auto str = [&](ANode::Ptr x) { std::ostringstream os; dd->printNode(os,x); return os.str(); };
   while (!st.empty()) {
      ANode::Ptr x = st.back(); st.pop_back(); g.n.push_back(x);
      std::string xs = str(x); g.nodes.insert(xs); g.text += xs + "\n";
      for(auto k = x->beginKids();k != x->endKids();k++) {
         Edge::Ptr e = *k; std::ostringstream os,os2; os << e->_obj << "(" << e->_lbl << ")"; os2 << *e;
         std::string a = xs + "\1" + os.str() + "\1" + str(e->_to); g.arcs.insert(a); g.text += a + "\n"; g.edges.insert(os2.str());
         if (seen.insert(e->_to.get()).second) st.push_back(e->_to.get());
      }
   }
   return g;
}

static void c15body(const Inst& in,int sk,int width,bool faults,bool allocFault,bool viaPrint,int rounds) {
   Actor A; Bounds b; History h(&in,&b);
   auto dd = in.make(&A,&b);
   std::shared_ptr<Strategy> st;      // (remembers the type: strategies have no virtual destructor)
   if (sk == 0) st = std::make_shared<Exact>(); else if (sk == 1) st = std::make_shared<Restricted>(width); else st = std::make_shared<Relaxed>(width);
   dd->setStrategy(st.get());
   b.attach(dd);
   if (sk == 0) { if (in.nbSolutions() > 3000) return; dd->compute(b); }
   else { ANode::Ptr from; { auto al = dd->makeNDAllocator(); from = al->cloneNode(dd->init()); dd->apply(from,b); } }
   for(int r=0;r<rounds;r++) {
      Graph before = graphOf(dd);
      if (before.n.size() > 400) return;
      double opt = dd->currentOpt(); bool ex = dd->isExact();
      auto fds = openFds();
      { OffArena o; D.nodes = before.nodes; D.arcs = before.arcs; }
      D.fMk = faults && chance(1,3) ? 4 : 0; D.fOpen = faults && chance(1,4) ? 4 : 0; D.fWrite = faults && chance(1,3) ? 3 : 0;
      D.fFork = faults && chance(1,3) ? 4 : 0; D.fExec = faults && chance(1,3) ? 4 : 0; D.fWait = faults && chance(1,3) ? 4 : 0;
      D.room = faults && chance(1,5) ? (int64_t)draw(2000) : -1; D.full = false;
      D.nf = 0; memset(D.w,0,sizeof *D.w); D.top = getpid(); D.me = -1;
      consoleReset();
      if (faults && chance(1,6)) { console.failAfter = draw(300); }
      std::ostringstream* os; { OffArena o; os = new std::ostringstream; }
      bool threw = false, cont = true;
      note(fmt("display a %s diagram with %zu states and %zu arcs",st->getName().c_str(),before.nodes.size(),before.arcs.size()));
      int64_t failAt = allocFault ? 1 + draw(60) : 0;
      D.on = true;
      if (allocFault) armAllocFailure(failAt);
      try { if (viaPrint) dd->print(*os,"g"); else dd->display(); } catch(std::bad_alloc&) { threw = true; }
      if (getpid() != D.top) fail("child-returns","a process that was started to run a program continues in the caller's code");
      D.on = false;
      bool fired = allocFault && allocFailureFired(); disarmAllocFailure();
      (void)cont;
      if (fired) count("fault.alloc-failure");
      if (threw && !fired) fail("spurious-bad-alloc","bad_alloc although no allocation failed");
      auto after = openFds();
      for(int fd : after) if (!fds.count(fd)) fail("fd-leak",fmt("descriptor %d is still open after displaying",fd));
      for(int fd : fds) if (!after.count(fd)) fail("fd-closed",fmt("descriptor %d of the caller was closed",fd));
      if (!D.w->faulted && !fired && D.w->renders != 1) fail("not-rendered",fmt("nothing failed and the renderer was started %d times",D.w->renders));
      if (!D.w->faulted && !fired && D.w->views != 1) fail("not-viewed",fmt("nothing failed and the viewer was started %d times",D.w->views));
      Graph g2 = graphOf(dd);
      if (g2.text != before.text || dd->currentOpt() != opt || dd->isExact() != ex) fail("diagram-changed","displaying changed the diagram");
      if (viaPrint && !threw && !fired) {
         OffArena o; std::istringstream is(os->str()); std::string l; std::multiset<std::string> e;
         while (std::getline(is,l)) { auto p = l.find("E<"); if (p != std::string::npos) e.insert(l.substr(p)); }
         for(auto& x : before.edges) if (e.count(x) != before.edges.count(x)) fail("print-arcs",fmt("printing lists the arc %s %zu times, expected %zu",x.c_str(),e.count(x),before.edges.count(x)));
      }
      { OffArena o; delete os; D.nodes.clear(); D.arcs.clear(); }
      for(int i=0;i<D.nf;i++) close(D.f[i].keep);
      mark((uint64_t)before.nodes.size()); mark((uint64_t)before.arcs.size()); mark((uint64_t)D.w->procs); mark((uint64_t)D.w->renders*16 + (uint64_t)D.w->views);
      for(auto& x : before.arcs) for(char c : x) mark((uint64_t)(unsigned char)c);
      D.nf = 0;
      if (before.arcs.size() > 1) nontrivial();
      { OffArena o; before = Graph(); g2 = Graph(); }
      consoleReset();
   }
}
static void c15() {
   if (!D.w) { OffArena o; D.w = (World*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); std::atexit(exitHandler); }
   drawKnobs(); drawHeap();
   GenCfg g; g.size = (int)oneOf(std::vector<int>{0,0,1}); g.tableOnly = chance(2,3);
   InstP in = drawInstance(g);
   int sk = (int)draw(3); int width = drawWidth();
   bool faults = chance(2,3), allocFault = chance(1,8), viaPrint = chance(1,4); int rounds = 1 + (int)draw(2);
   if (allocFault) { nontrivial(); int rc = inChild([&] { c15body(*in,sk,width,faults,true,viaPrint,rounds); }); if (rc == 1) count("outcome.fail-stop"); }
   else c15body(*in,sk,width,faults,false,viaPrint,rounds);
}
static Reg r15("C15",c15);
