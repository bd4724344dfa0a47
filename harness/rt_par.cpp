// Entry points for the analysis of the parallel runtime; never linked or run.
#include <cstdlib>
#include <new>
#include <alloca.h>
#include <fu/mem/arc.h>
#include <par/parfor.cpp>

extern "C" void op_body(size_t start, size_t end) noexcept;

namespace fu {
void op__stack_push(lockfree::stack<4>& s, char* first, char* last) { s.push(first, last); }
char* op__stack_pop(lockfree::stack<4>& s) { return s.try_pop(); }
void op__stack_push3(lockfree::stack<3>& s, char* first, char* last) { s.push(first, last); }
char* op__stack_pop3(lockfree::stack<3>& s) { return s.try_pop(); }
void op__pbc_dec(PendingBatchCount& pbc) { PBC_Decrement(pbc); }
#ifndef PAR_PUBLIC
void op__pbc_wait(PendingBatchCount& pbc) { PBC_Wait(pbc); }
bool op__trywork() { return TaskStack_TryWork(); }
void op__worker() { TaskStack_Worker_Loop(nullptr); }
void op__taskpush(Task* a, Task* b) { TaskStack_Push(a, b); }
#endif
void op__parfor(size_t size, size_t per, void (*run)(Task*), PendingBatchCount*& control) { parallel_for(size, per, run, control); }
void op__parfor_tpl(size_t size, size_t per) {
    auto fn = [](size_t a, size_t b) { op_body(a, b); };
    parallel_for(size, per, fn);
}
void op__arc_incr(fu_ARC& a) { a.incr(); }
bool op__arc_decr(fu_ARC& a) { return a.decr(); }
bool op__arc_unique(fu_ARC& a) { return a.unique(); }
}
