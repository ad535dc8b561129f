// the number of blocks of memory that are allocated and not freed yet
extern "C" long sym_heap_live();
#ifndef SYMBOLIC
#include <cstdlib>
#include <new>
static long live;
extern "C" long sym_heap_live() { return live; }
void* operator new(size_t n) { live++; return malloc(n ? n : 1); } void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); } void operator delete[](void* p) noexcept { operator delete(p); } void operator delete(void* p, size_t) noexcept { operator delete(p); } void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
static void same(long before) { long after = sym_heap_live(); sym_assert(after <= before, "all the memory of a document is released with it"); sym_assert(after >= before, "no memory is released that isn't a document's own"); sym_reach("done"); }
