// Instantiates the element-count front end of the allocator once per element size; never executed.
#include <fu/mem/arc.cpp>

template <int N> struct alignas(N % 8 == 0 ? 8 : N % 4 == 0 ? 4 : 1) Bytes { char b[N]; };

#define AL(N) \
    extern "C" void al__arc__##N (char** p, int* n) { Bytes<N>* q; fu_ALLOC<Bytes<N>, true >(q, *n); *p = (char*)q; } \
    extern "C" void al__uniq__##N(char** p, int* n) { Bytes<N>* q; fu_ALLOC<Bytes<N>, false>(q, *n); *p = (char*)q; }

AL(1) AL(2) AL(4) AL(8) AL(12) AL(16) AL(24) AL(40) AL(112) AL(120) AL(136) AL(1000)
