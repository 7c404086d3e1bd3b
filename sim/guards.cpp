// Function-local statics outlive a run: what their initialisers allocate does not belong to the run's heap.
// (A file of its own: the compiler's headers declare these with types of their own.)
extern "C" void sim_static_begin();
extern "C" void sim_static_end();
extern "C" int __cxa_guard_acquire(long long* g) {
   if (*(char*)g) return 0;
   sim_static_begin();
   return 1;
}
extern "C" void __cxa_guard_release(long long* g) noexcept { *(char*)g = 1; sim_static_end(); }
extern "C" void __cxa_guard_abort(long long*) noexcept { sim_static_end(); }
