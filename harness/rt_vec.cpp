// Entry points for the container analysis: one function per container operation and element type.
// Only compiled to LLVM IR, never executed.
#define TODO_FIX_REMOVE_copying_push            // as the compiler's own build has it
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <fu/inl.h>
#include <fu/int.h>
#include <fu/default.h>
#include <fu/vec.h>
#include <fu/view.h>
#include <fu/str.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/view_assign.h>
#include <fu/vec/view_swap.h>
#include <fu/vec/LEGACY_slice.h>
#include <fu/mem/memswap.cpp>

struct Blob { int64_t a, b, c; };                      // trivial, too big to be stored inline
struct Obj  { void* p; Obj(const Obj&) noexcept; Obj(Obj&&) noexcept; ~Obj() noexcept; Obj& operator=(const Obj&) noexcept; Obj& operator=(Obj&&) noexcept; };
struct Uniq { void* p; Uniq(const Uniq&) = delete; Uniq(Uniq&&) noexcept; ~Uniq() noexcept; };

#define V fu::vec<T>
template <typename T> using VecOf = fu::vec<T>;
#define MV(x) static_cast<std::remove_reference_t<decltype(x)>&&>(x)

#define COMMON(N, TY) \
namespace ns_##N { typedef TY T; \
void op__##N##__dtor(V& v) { { using VT = V; v.~VT(); }; } \
void op__##N##__move_ctor(void* ret, V& x) { new (ret) V(static_cast<V&&>(x)); } \
void op__##N##__move_assign(V& v, V& x) { v = static_cast<V&&>(x); } \
void op__##N##__push(V& v, T& item) { v.push(static_cast<T&&>(item)); } \
void op__##N##__insert(V& v, int idx, T& item) { v.insert(idx, static_cast<T&&>(item)); } \
void op__##N##__unshift(V& v, T& item) { v.unshift(static_cast<T&&>(item)); } \
void op__##N##__resize(V& v, int n) { v.resize(n); } \
void op__##N##__resize_junk(V& v, int n) { v.template resize<false>(n); } \
void op__##N##__grow(V& v, int n) { v.grow(n); } \
void op__##N##__grow_junk(V& v, int n) { v.template grow<false>(n); } \
void op__##N##__shrink(V& v, int n) { v.shrink(n); } \
void op__##N##__clear(V& v) { v.clear(); } \
void op__##N##__pop(V& v) { v.pop(); } \
void op__##N##__splice_del(V& v, int idx, int del) { v.splice(idx, del); } \
void op__##N##__splice_empty(V& v, int idx, int del, int n) { v.splice_empty(idx, del, n); } \
void op__##N##__shift(V& v) { v.shift(); } \
void op__##N##__shift_n(V& v, int n) { v.shift(n); } \
void op__##N##__shift_pop(V& v, int l, int r) { v.shift_pop(l, r); } \
void op__##N##__splice_move(V& v, int idx, int del, V& x) { v.splice(idx, del, static_cast<V&&>(x)); } \
void op__##N##__append_move(V& v, V& x) { v.append(fu_ZERO(), static_cast<V&&>(x)); } \
void op__##N##__append_del_move(V& v, int del, V& x) { v.append(del, static_cast<V&&>(x)); } \
void op__##N##__init_move(V& ret, T* src, int n) { ret.UNSAFE__init_move(src, n); } \
void op__##N##__reserve(V& v, int n) { v.reserve(n); } \
void op__##N##__data_mut(T** out, V& v) { *out = v.data_mut(); } \
void op__##N##__swap(V& v, V& x) { v.swap(x); } \
void op__##N##__size(int* out, const V& v) { *out = v.size(); } \
void op__##N##__data(const T** out, const V& v) { *out = v.data(); } \
void op__##N##__index(const T** out, const V& v, int idx) { *out = &v[idx]; } \
void op__##N##__mutref(T** out, V& v, int idx) { *out = &v.mutref(idx); } \
void op__##N##__begin_end(const T** out, const T** out2, const V& v) { *out = v.begin(); *out2 = v.end(); } \
void op__##N##__boolean(bool* out, const V& v) { *out = (bool) v; } \
void op__##N##__dmove_default(V& ret, V& v) { new (&ret) V(v.destructive_move_or_default()); } \
void op__##N##__plus_move_move(V& ret, V& v, V& x) { new (&ret) V(static_cast<V&&>(v) + static_cast<V&&>(x)); } \
void op__##N##__pluseq_move(V& v, V& x) { v += static_cast<V&&>(x); } \
void op__##N##__pluseq_one(V& v, T& item) { v += static_cast<T&&>(item); } \
void op__##N##__plus_one(V& ret, V& v, T& item) { new (&ret) V(static_cast<V&&>(v) + static_cast<T&&>(item)); } \
void op__##N##__one_plus(V& ret, T& item, V& v) { new (&ret) V(static_cast<T&&>(item) + static_cast<V&&>(v)); } \
void op__##N##__slice_move(V& ret, V& v, int a, int b) { new (&ret) V(fu::slice(static_cast<V&&>(v), a, b)); } \
/* views */ \
void op__##N##__view_index(const T** out, const fu::view<T>& w, int idx) { *out = &w[idx]; } \
void op__##N##__viewm_index(const T** out, const fu::view_mut<T>& w, int idx) { *out = &w[idx]; } \
void op__##N##__viewm_mutref(T** out, fu::view_mut<T>& w, int idx) { *out = &w.mutref(idx); } \
void op__##N##__slate_index(const T** out, const fu::slate<7, T>& sl, int idx) { *out = &sl[idx]; } \
void op__##N##__slate_mutref(T** out, fu::slate<7, T>& sl, int idx) { *out = &sl.mutref(idx); } \
void op__##N##__view_of_vec(fu::view<T>& outv, const V& v) { outv = fu::view<T>(v); } \
void op__##N##__viewm_of_vec(fu::view_mut<T>& outv, V& v) { outv = v.mut(); } \
void op__##N##__get_view1(fu::view<T>& outv, const V& v, int a) { outv = fu::get_view(v, a); } \
void op__##N##__get_view0(fu::view<T>& outv, const V& v, int b) { outv = fu::get_view_start0(v, b); } \
void op__##N##__get_view2(fu::view<T>& outv, const V& v, int a, int b) { outv = fu::get_view(v, a, b); } \
void op__##N##__view_view1(fu::view<T>& outv, const fu::view<T>& w, int a) { outv = fu::get_view(w, a); } \
void op__##N##__view_view0(fu::view<T>& outv, const fu::view<T>& w, int b) { outv = fu::get_view_start0(w, b); } \
void op__##N##__view_view2(fu::view<T>& outv, const fu::view<T>& w, int a, int b) { outv = fu::get_view(w, a, b); } \
void op__##N##__get_viewm1(fu::view_mut<T>& outv, V& v, int a) { outv = fu::get_view_mut(v, a); } \
void op__##N##__get_viewm0(fu::view_mut<T>& outv, V& v, int b) { outv = fu::get_view_start0_mut(v, b); } \
void op__##N##__get_viewm2(fu::view_mut<T>& outv, V& v, int a, int b) { outv = fu::get_view_mut(v, a, b); } \
void op__##N##__viewm_viewm1(fu::view_mut<T>& outv, fu::view_mut<T>& w, int a) { outv = fu::get_view_mut(w, a); } \
void op__##N##__viewm_viewm0(fu::view_mut<T>& outv, fu::view_mut<T>& w, int b) { outv = fu::get_view_start0_mut(w, b); } \
void op__##N##__viewm_viewm2(fu::view_mut<T>& outv, fu::view_mut<T>& w, int a, int b) { outv = fu::get_view_mut(w, a, b); } \
/* ranges */ \
void op__##N##__range_size(int* out, const fu::vec_range<T>& r) { *out = r.size(); } \
void op__##N##__range_data(const T** out, const fu::vec_range<T>& r) { *out = r.data(); } \
void op__##N##__range_index(const T** out, const fu::vec_range<T>& r, int idx) { *out = &r[idx]; } \
void op__##N##__rangem_size(int* out, const fu::vec_range_mut<T>& r) { *out = r.size(); } \
void op__##N##__rangem_data(const T** out, const fu::vec_range_mut<T>& r) { *out = r.data(); } \
void op__##N##__rangem_data_mut(T** out, fu::vec_range_mut<T>& r) { *out = r.data_mut(); } \
void op__##N##__rangem_index(const T** out, const fu::vec_range_mut<T>& r, int idx) { *out = &r[idx]; } \
void op__##N##__rangem_mutref(T** out, fu::vec_range_mut<T>& r, int idx) { *out = &r.mutref(idx); } \
void op__##N##__range_get1(fu::vec_range<T>& outr, const fu::vec_range<T>& r, int a) { new (&outr) fu::vec_range<T>(fu::get_range(r, a)); } \
void op__##N##__range_get0(fu::vec_range<T>& outr, const fu::vec_range<T>& r, int b) { new (&outr) fu::vec_range<T>(fu::get_range_start0(r, b)); } \
void op__##N##__range_get2(fu::vec_range<T>& outr, const fu::vec_range<T>& r, int a, int b) { new (&outr) fu::vec_range<T>(fu::get_range(r, a, b)); } \
void op__##N##__rangem_get1(fu::vec_range_mut<T>& outr, const fu::vec_range_mut<T>& r, int a) { new (&outr) fu::vec_range_mut<T>(fu::get_range_mut(r, a)); } \
void op__##N##__rangem_get0(fu::vec_range_mut<T>& outr, const fu::vec_range_mut<T>& r, int b) { new (&outr) fu::vec_range_mut<T>(fu::get_range_start0_mut(r, b)); } \
void op__##N##__rangem_get2(fu::vec_range_mut<T>& outr, const fu::vec_range_mut<T>& r, int a, int b) { new (&outr) fu::vec_range_mut<T>(fu::get_range_mut(r, a, b)); } \
void op__##N##__rangem_push(fu::vec_range_mut<T>& r, T& item) { r.push(static_cast<T&&>(item)); } \
void op__##N##__rangem_insert(fu::vec_range_mut<T>& r, int idx, T& item) { r.insert(idx, static_cast<T&&>(item)); } \
void op__##N##__rangem_unshift(fu::vec_range_mut<T>& r, T& item) { r.unshift(static_cast<T&&>(item)); } \
void op__##N##__rangem_resize(fu::vec_range_mut<T>& r, int n) { r.resize(n); } \
void op__##N##__rangem_grow(fu::vec_range_mut<T>& r, int n) { r.grow(n); } \
void op__##N##__rangem_shrink(fu::vec_range_mut<T>& r, int n) { r.shrink(n); } \
void op__##N##__rangem_clear(fu::vec_range_mut<T>& r) { r.clear(); } \
void op__##N##__rangem_pop(fu::vec_range_mut<T>& r) { r.pop(); } \
void op__##N##__rangem_splice_del(fu::vec_range_mut<T>& r, int idx, int del) { r.splice(idx, del); } \
void op__##N##__rangem_splice_move(fu::vec_range_mut<T>& r, int idx, int del, V& x) { r.splice(idx, del, static_cast<V&&>(x)); } \
void op__##N##__rangem_append_move(fu::vec_range_mut<T>& r, V& x) { r.append(fu_ZERO(), static_cast<V&&>(x)); } \
void op__##N##__rangem_assign_move(fu::vec_range_mut<T>& r, V& x) { r = static_cast<V&&>(x); } \
void op__##N##__rangem_dmove(V& ret, fu::vec_range_mut<T>& r) { new (&ret) V(r.destructive_move()); } \
void op__##N##__rangem_dmove_default(V& ret, fu::vec_range_mut<T>& r) { new (&ret) V(r.destructive_move_or_default()); } \
void op__##N##__rangem_swap_vec(fu::vec_range_mut<T>& r, V& x) { r.swap(x); } \
void op__##N##__rangem_swap(fu::vec_range_mut<T>& r, fu::vec_range_mut<T>& q) { r.swap(q); } \
void op__##N##__rangem_swap_move(fu::vec_range_mut<T>& r, fu::vec_range_mut<T>& q) { r.swap(static_cast<fu::vec_range_mut<T>&&>(q)); } \
void op__##N##__rangem_write_size(fu::vec_range_mut<T>& r, int n) { r.UNSAFE__WriteSize(n); } \
void op__##N##__range_bool(bool* out, const fu::vec_range<T>& r) { *out = (bool) r; } \
void op__##N##__rangem_bool(bool* out, const fu::vec_range_mut<T>& r) { *out = (bool) r; } \
void op__##N##__range_of_vec(fu::vec_range<T>& outr, const V& v) { new (&outr) fu::vec_range<T>(v); } \
/* more ways to say it */ \
void op__##N##__slice1_move(V& ret, V& v, int a) { new (&ret) V(fu::slice(MV(v), a)); } \
void op__##N##__substr_move(V& ret, V& v, int a, int b) { new (&ret) V(fu::substr(MV(v), a, b)); } \
void op__##N##__vec_of_slate(V& ret, fu::slate<7, T>& sl) { new (&ret) V(static_cast<fu::slate<7, T>&&>(sl)); } \
void op__##N##__vec_of_array(V& ret, fu::slate<7, T>& sl) { new (&ret) V(MV(sl.m_data)); } \
void op__##N##__swap_range(V& v, fu::vec_range_mut<T>& r) { v.swap(r); } \
void op__##N##__swap_range_rv(V& v, fu::vec_range_mut<T>& r) { v.swap(MV(r)); } \
void op__##N##__reserve0(V& v) { v.reserve(); } \
void op__##N##__bytesize(size_t* out, const V& v) { *out = v.bytesize(); } \
void op__##N##__range_bytesize(size_t* out, const fu::vec_range_mut<T>& r) { *out = r.bytesize(); } \
void op__##N##__vec_range1(fu::vec_range<T>& outr, const V& v, int a) { new (&outr) fu::vec_range<T>(fu::get_range(v, a)); } \
void op__##N##__vec_range0(fu::vec_range<T>& outr, const V& v, int b) { new (&outr) fu::vec_range<T>(fu::get_range_start0(v, b)); } \
void op__##N##__vec_range2(fu::vec_range<T>& outr, const V& v, int a, int b) { new (&outr) fu::vec_range<T>(fu::get_range(v, a, b)); } \
void op__##N##__vec_rangem1(fu::vec_range_mut<T>& outr, V& v, int a) { new (&outr) fu::vec_range_mut<T>(fu::get_range_mut(v, a)); } \
void op__##N##__vec_rangem0(fu::vec_range_mut<T>& outr, V& v, int b) { new (&outr) fu::vec_range_mut<T>(fu::get_range_start0_mut(v, b)); } \
void op__##N##__vec_rangem2(fu::vec_range_mut<T>& outr, V& v, int a, int b) { new (&outr) fu::vec_range_mut<T>(fu::get_range_mut(v, a, b)); } \
void op__##N##__rangem_cget1(fu::vec_range<T>& outr, const fu::vec_range_mut<T>& r, int a) { new (&outr) fu::vec_range<T>(fu::get_range(r, a)); } \
void op__##N##__rangem_cget0(fu::vec_range<T>& outr, const fu::vec_range_mut<T>& r, int b) { new (&outr) fu::vec_range<T>(fu::get_range_start0(r, b)); } \
void op__##N##__rangem_cget2(fu::vec_range<T>& outr, const fu::vec_range_mut<T>& r, int a, int b) { new (&outr) fu::vec_range<T>(fu::get_range(r, a, b)); } \
void op__##N##__range_of_rangem(fu::vec_range<T>& outr, const fu::vec_range_mut<T>& r) { new (&outr) fu::vec_range<T>(r); } \
void op__##N##__view_of_range(fu::view<T>& outv, const fu::vec_range<T>& r) { outv = fu::view<T>(r); } \
void op__##N##__viewm_of_range(fu::view_mut<T>& outv, fu::vec_range_mut<T>& r) { outv = fu::view_mut<T>(r); } \
void op__##N##__range_view1(fu::view<T>& outv, const fu::vec_range<T>& r, int a) { outv = fu::get_view(r, a); } \
void op__##N##__range_view2(fu::view<T>& outv, const fu::vec_range<T>& r, int a, int b) { outv = fu::get_view(r, a, b); } \
void op__##N##__rangem_viewm1(fu::view_mut<T>& outv, fu::vec_range_mut<T>& r, int a) { outv = fu::get_view_mut(r, a); } \
void op__##N##__rangem_viewm2(fu::view_mut<T>& outv, fu::vec_range_mut<T>& r, int a, int b) { outv = fu::get_view_mut(r, a, b); } \
void op__##N##__viewm_rv1(fu::view_mut<T>& outv, fu::view_mut<T>& w, int a) { outv = fu::get_view_mut(MV(w), a); } \
void op__##N##__viewm_rv2(fu::view_mut<T>& outv, fu::view_mut<T>& w, int a, int b) { outv = fu::get_view_mut(MV(w), a, b); } \
void op__##N##__view_size(int* out, const T** out2, const fu::view<T>& w) { *out = w.size(); *out2 = w.data(); } \
void op__##N##__viewm_size(int* out, const T** out2, const fu::view_mut<T>& w) { *out = w.size(); *out2 = w.data(); } \
void op__##N##__view_begin_end(const T** out, const T** out2, const fu::view<T>& w) { *out = w.begin(); *out2 = w.end(); } \
void op__##N##__viewm_begin_end(const T** out, const T** out2, fu::view_mut<T>& w) { *out = w.begin(); *out2 = w.end(); } \
void op__##N##__view_bool(bool* out, const fu::view<T>& w) { *out = (bool) w; } \
void op__##N##__viewm_bool(bool* out, const fu::view_mut<T>& w) { *out = (bool) w; } \
void op__##N##__view_reassign(fu::view<T>& outv, const fu::view<T>& w) { new (&outv) fu::view<T>(); outv.ptr_reassign(w); } \
void op__##N##__viewm_reassign(fu::view_mut<T>& outv, const fu::view_mut<T>& w) { new (&outv) fu::view_mut<T>(); outv.ptr_reassign(w); } \
void op__##N##__range_reassign(fu::vec_range<T>& outr, const fu::vec_range<T>& r) { new (&outr) fu::vec_range<T>(); outr.ptr_reassign(r); } \
void op__##N##__rangem_reassign(fu::vec_range_mut<T>& outr, const fu::vec_range_mut<T>& r) { new (&outr) fu::vec_range_mut<T>(); outr.ptr_reassign(r); } \
void op__##N##__rangem_append_del_move(fu::vec_range_mut<T>& r, int del, V& x) { r.append(del, MV(x)); } \
void op__##N##__range_pluseq_move(fu::vec_range_mut<T>& r, V& x) { r += MV(x); } \
void op__##N##__range_pluseq_one(fu::vec_range_mut<T>& r, T& item) { r += MV(item); } \
void op__##N##__rrange_pluseq_move(fu::vec_range_mut<T>& r, V& x) { MV(r) += MV(x); } \
void op__##N##__rrange_pluseq_one(fu::vec_range_mut<T>& r, T& item) { MV(r) += MV(item); } \
}

#define COPYING(N, TY) \
namespace ns_##N { \
void op__##N##__copy_ctor(void* ret, const V& x) { new (ret) V(x); } \
void op__##N##__copy_assign(V& v, const V& x) { v = x; } \
void op__##N##__splice_copy(V& v, int idx, int del, const T* src, int n) { v.splice_copy(idx, del, src, n); } \
void op__##N##__splice_view(V& v, int idx, int del, const fu::view<T>& w) { v.splice(idx, del, w); } \
void op__##N##__append_copy(V& v, const T* src, int n) { v.append_copy(fu_ZERO(), src, n); } \
void op__##N##__append_del_copy(V& v, int del, const T* src, int n) { v.append_copy(del, src, n); } \
void op__##N##__append_self(V& v) { v.append(fu_ZERO(), (const V&) v); } \
void op__##N##__append_view(V& v, const fu::view<T>& w) { v.append(fu_ZERO(), w); } \
void op__##N##__init_copy(V& ret, const T* src, int n) { ret.UNSAFE__init_copy(src, n); } \
void op__##N##__init_copy2(V& ret, const T* src, int n, const T* src2, int n2) { ret.UNSAFE__init_copy(src, n, src2, n2); } \
void op__##N##__plus_move_view(V& ret, V& v, const fu::view<T>& w) { new (&ret) V(static_cast<V&&>(v) + w); } \
void op__##N##__plus_view_move(V& ret, const fu::view<T>& w, V& v) { new (&ret) V(w + static_cast<V&&>(v)); } \
void op__##N##__plus_copy_copy(V& ret, const V& v, const V& x) { new (&ret) V(v + x); } \
void op__##N##__plus_copy_view(V& ret, const V& v, const fu::view<T>& w) { new (&ret) V(v + w); } \
void op__##N##__plus_view_copy(V& ret, const fu::view<T>& w, const V& v) { new (&ret) V(w + v); } \
void op__##N##__plus_view_view(V& ret, const fu::view<T>& w, const fu::view<T>& y) { new (&ret) V(w + y); } \
void op__##N##__plus_copy_one(V& ret, const V& v, T& item) { new (&ret) V(v + static_cast<T&&>(item)); } \
void op__##N##__one_plus_copy(V& ret, T& item, const V& v) { new (&ret) V(static_cast<T&&>(item) + v); } \
void op__##N##__pluseq_view(V& v, const fu::view<T>& w) { v += w; } \
void op__##N##__slice_copy(V& ret, const V& v, int a, int b) { new (&ret) V(fu::slice(v, a, b)); } \
void op__##N##__slice_copy1(V& ret, const V& v, int a) { new (&ret) V(fu::slice(v, a)); } \
void op__##N##__range_to_vec(V& ret, const fu::vec_range<T>& r) { new (&ret) V(r); } \
void op__##N##__rangem_to_vec(V& ret, const fu::vec_range_mut<T>& r) { new (&ret) V(r); } \
void op__##N##__rangem_splice_view(fu::vec_range_mut<T>& r, int idx, int del, const fu::view<T>& w) { r.splice(idx, del, w); } \
void op__##N##__rangem_append_view(fu::vec_range_mut<T>& r, const fu::view<T>& w) { r.append(fu_ZERO(), w); } \
void op__##N##__rangem_append_copy(fu::vec_range_mut<T>& r, const T* src, int n) { r.append_copy(fu_ZERO(), src, n); } \
void op__##N##__rangem_assign_copy(fu::vec_range_mut<T>& r, const V& x) { r = x; } \
void op__##N##__rangem_assign_view(fu::vec_range_mut<T>& r, const fu::vec_range_mut<T>& q) { r = q; } \
/* more ways to copy */ \
void op__##N##__push_copy(V& v, const T& item) { v.push(item); } \
void op__##N##__insert_copy(V& v, int idx, const T& item) { v.insert(idx, item); } \
void op__##N##__unshift_copy(V& v, const T& item) { v.unshift(item); } \
void op__##N##__rangem_push_copy(fu::vec_range_mut<T>& r, const T& item) { r.push(item); } \
void op__##N##__rangem_insert_copy(fu::vec_range_mut<T>& r, int idx, const T& item) { r.insert(idx, item); } \
void op__##N##__rangem_unshift_copy(fu::vec_range_mut<T>& r, const T& item) { r.unshift(item); } \
void op__##N##__plus_conv(V& ret, V& v, const T& item) { new (&ret) V(MV(v) + item); } \
void op__##N##__conv_plus(V& ret, const T& item, V& v) { new (&ret) V(item + MV(v)); } \
void op__##N##__plus_copy_conv(V& ret, const V& v, const T& item) { new (&ret) V(v + item); } \
void op__##N##__conv_plus_copy(V& ret, const T& item, const V& v) { new (&ret) V(item + v); } \
void op__##N##__view_plus_conv(V& ret, const fu::view<T>& w, const T& item) { new (&ret) V(w + item); } \
void op__##N##__conv_plus_view(V& ret, const T& item, const fu::view<T>& w) { new (&ret) V(item + w); } \
void op__##N##__pluseq_conv(V& v, const T& item) { v += item; } \
void op__##N##__range_pluseq_conv(fu::vec_range_mut<T>& r, const T& item) { r += item; } \
void op__##N##__rrange_pluseq_conv(fu::vec_range_mut<T>& r, const T& item) { MV(r) += item; } \
void op__##N##__range_pluseq_view(fu::vec_range_mut<T>& r, const fu::view<T>& w) { r += w; } \
void op__##N##__rrange_pluseq_view(fu::vec_range_mut<T>& r, const fu::view<T>& w) { MV(r) += w; } \
void op__##N##__pluseq_vec(V& v, const V& x) { v += x; } \
void op__##N##__pluseq_range(V& v, const fu::vec_range<T>& q) { v += q; } \
void op__##N##__plus_move_copy(V& ret, V& v, const V& x) { new (&ret) V(MV(v) + x); } \
void op__##N##__plus_copy_move(V& ret, const V& x, V& v) { new (&ret) V(x + MV(v)); } \
void op__##N##__plus_move_range(V& ret, V& v, const fu::vec_range<T>& q) { new (&ret) V(MV(v) + q); } \
void op__##N##__plus_range_move(V& ret, V& v, const fu::vec_range<T>& q) { new (&ret) V(q + MV(v)); } \
void op__##N##__plus_copy_range(V& ret, const V& v, const fu::vec_range<T>& q) { new (&ret) V(v + q); } \
void op__##N##__plus_range_copy(V& ret, const V& v, const fu::vec_range<T>& q) { new (&ret) V(q + v); } \
void op__##N##__slice1_copy(V& ret, const V& v, int a) { new (&ret) V(fu::slice(v, a)); } \
void op__##N##__substr_copy(V& ret, const V& v, int a, int b) { new (&ret) V(fu::substr(v, a, b)); } \
void op__##N##__splice_vec(V& v, int idx, int del, const V& x) { v.splice(idx, del, x); } \
void op__##N##__splice_self(V& v, int idx, int del) { v.splice(idx, del, (const V&) v); } \
void op__##N##__splice_range(V& v, int idx, int del, const fu::vec_range<T>& q) { v.splice(idx, del, q); } \
void op__##N##__append_vec(V& v, const V& x) { v.append(fu_ZERO(), x); } \
void op__##N##__append_range(V& v, const fu::vec_range<T>& q) { v.append(fu_ZERO(), q); } \
void op__##N##__assign_range(V& v, const fu::vec_range<T>& q) { v = q; } \
void op__##N##__assign_rangem(V& v, const fu::vec_range_mut<T>& q) { v = q; } \
void op__##N##__rangem_splice_vec(fu::vec_range_mut<T>& r, int idx, int del, const V& x) { r.splice(idx, del, x); } \
void op__##N##__rangem_append_vec(fu::vec_range_mut<T>& r, const V& x) { r.append(fu_ZERO(), x); } \
void op__##N##__rangem_append_del_copy(fu::vec_range_mut<T>& r, int del, const T* src, int n) { r.append_copy(del, src, n); } \
void op__##N##__rangem_assign_range(fu::vec_range_mut<T>& r, const fu::vec_range<T>& q) { r = q; } \
void op__##N##__viewm_of_slate(fu::view<T>& outv, const fu::slate<7, T>& sl) { outv = fu::view<T>(sl); } \
}

COMMON(char, char) COPYING(char, char)
COMMON(int, int) COPYING(int, int)
COMMON(long, int64_t) COPYING(long, int64_t)
COMMON(blob, Blob) COPYING(blob, Blob)
COMMON(obj, Obj) COPYING(obj, Obj)
COMMON(uniq, Uniq)

namespace ns_char {
typedef char T;
void op__char__cstr2vec_copy(V& v, const char* src, int n) { fu::cstr2vec_copy(v, (uintptr_t) src, n); }
void op__char__view_assign(fu::view_mut<T>& w, const fu::view<T>& y) { fu::view_assign(w, y); }
void op__char__to_str(V& ret, const char* cstr) { new (&ret) V(fu::to_str(cstr)); }
void op__char__strlit_str(V& ret, const fu::strlit& lit) { new (&ret) V((fu::str) lit); }
void op__char__strlit_index(const T** out, const fu::strlit& lit, int idx) { *out = &lit[idx]; }
}
