# Contracts of the container operations, used by tools/vecabs.
#   op[@types](arguments) | precondition | effect
# kinds: V vector, C const vector, U uninitialised result, Z empty vector, I one element passed by &&,
#        i any 32-bit int, S/M const/mutable elements (count follows), W/w view/view_mut, O output,
#        R/r vec_range_mut/vec_range (r.v underlying, r.L r.R trimmed), q range that may also look into the first vector,
#        K one element by const&, L slate<7>, T C string
dtor(v:V) | | v dead
move_ctor(ret:U x:V) | | ret = x ; x any
move_assign(v:V x:V) | | v = x ; x any
push(v:V item:I) | | v = v item
insert(v:V idx:i item:I) | 0<=idx, idx<=#v | v = v[0:idx] item v[idx:]
unshift(v:V item:I) | | v = item v
resize(v:V n:i) | 0<=n, n<=#v | v = v[0:n]
resize(v:V n:i) | #v<=n | v = v zero*n-#v
resize_junk(v:V n:i) | 0<=n, n<=#v | v = v[0:n]
resize_junk@char/int/long/blob(v:V n:i) | #v<=n | v = v junk*n-#v
resize_junk@obj/uniq(v:V n:i) | #v<=n | v = v zero*n-#v
grow(v:V n:i) | #v<=n | v = v zero*n-#v
grow_junk@char/int/long/blob(v:V n:i) | #v<=n | v = v junk*n-#v
grow_junk@obj/uniq(v:V n:i) | #v<=n | v = v zero*n-#v
shrink(v:V n:i) | 0<=n, n<=#v | v = v[0:n]
clear(v:V) | | v = []
pop(v:V) | 1<=#v | v = v[0:#v-1]
splice_del(v:V idx:i del:i) | 0<=idx, 0<=del, idx+del<=#v | v = v[0:idx] v[idx+del:]
splice_empty(v:V idx:i del:i n:i) | 0<=idx, 0<=del, idx+del<=#v, 0<=n | v = v[0:idx] zero*n v[idx+del:]
shift(v:V) | 1<=#v | v = v[1:]
shift_n(v:V n:i) | 0<=n, n<=#v | v = v[n:]
shift_pop(v:V l:i r:i) | 0<=l, 0<=r, l+r<=#v | v = v[l:#v-r]
splice_move(v:V idx:i del:i x:V) | 0<=idx, 0<=del, idx+del<=#v | v = v[0:idx] x v[idx+del:] ; x any
append_move(v:V x:V) | | v = v x ; x any
append_del_move(v:V del:i x:V) | 0<=del, del<=#v | v = v[0:#v-del] x ; x any
init_move(ret:Z s:M n:i) | 0<=n | ret = s[0:n]
reserve(v:V n:i) | 0<=n | v same
data_mut(out:O v:V) | | v same ; excl v ; out ptr v 0
swap(v:V x:V) | | v = x ; x = v
size(out:O v:C) | | out int #v
data(out:O v:C) | | out ptr v 0
index(out:O v:C idx:i) | 0<=idx, idx<#v | out ptr v idx
index(out:O v:C idx:i) | idx<0 | out trap
index(out:O v:C idx:i) | #v<=idx | out trap
mutref(out:O v:V idx:i) | 0<=idx, idx<#v | excl v ; out ptr v idx
mutref(out:O v:V idx:i) | idx<0 | out trap
mutref(out:O v:V idx:i) | #v<=idx | out trap
begin_end(out:O out2:O v:C) | | out ptr v 0 ; out2 ptr v #v
boolean(out:O v:C) | | out nz #v
dmove_default(ret:U v:V) | | ret = v ; v any
plus_move_move(ret:U v:V x:V) | | ret = v x ; v any ; x any
pluseq_move(v:V x:V) | | v = v x ; x any
pluseq_one(v:V item:I) | | v = v item
plus_one(ret:U v:V item:I) | | ret = v item ; v any
one_plus(ret:U item:I v:V) | | ret = item v ; v any
slice_move(ret:U v:V a:i b:i) | 0<=a, a<=b, b<=#v | ret = v[a:b] ; v any
# views
view_index(out:O w:W idx:i) | 0<=idx, idx<#w | out ptr w idx
view_index(out:O w:W idx:i) | idx<0 | out trap
view_index(out:O w:W idx:i) | #w<=idx | out trap
viewm_index(out:O w:w idx:i) | 0<=idx, idx<#w | out ptr w idx
viewm_index(out:O w:w idx:i) | idx<0 | out trap
viewm_index(out:O w:w idx:i) | #w<=idx | out trap
viewm_mutref(out:O w:w idx:i) | 0<=idx, idx<#w | out ptr w idx
viewm_mutref(out:O w:w idx:i) | idx<0 | out trap
viewm_mutref(out:O w:w idx:i) | #w<=idx | out trap
slate_index(out:O sl:L idx:i) | 0<=idx, idx<7 | out ptr sl idx
slate_index(out:O sl:L idx:i) | idx<0 | out trap
slate_index(out:O sl:L idx:i) | 7<=idx | out trap
slate_mutref(out:O sl:L idx:i) | 0<=idx, idx<7 | out ptr sl idx
slate_mutref(out:O sl:L idx:i) | idx<0 | out trap
slate_mutref(out:O sl:L idx:i) | 7<=idx | out trap
view_of_vec(outv:O v:C) | | outv view v 0 #v
viewm_of_vec(outv:O v:V) | | excl v ; outv view v 0 #v
get_view1(outv:O v:C a:i) | 0<=a, a<=#v | outv view v a #v
get_view1(outv:O v:C a:i) | | outv viewin v
get_view0(outv:O v:C b:i) | 0<=b, b<=#v | outv view v 0 b
get_view0(outv:O v:C b:i) | | outv viewin v
get_view2(outv:O v:C a:i b:i) | 0<=a, a<=b, b<=#v | outv view v a b
get_view2(outv:O v:C a:i b:i) | | outv viewin v
view_view1(outv:O w:W a:i) | 0<=a, a<=#w | outv view w a #w
view_view1(outv:O w:W a:i) | | outv viewin w
view_view0(outv:O w:W b:i) | 0<=b, b<=#w | outv view w 0 b
view_view0(outv:O w:W b:i) | | outv viewin w
view_view2(outv:O w:W a:i b:i) | 0<=a, a<=b, b<=#w | outv view w a b
view_view2(outv:O w:W a:i b:i) | | outv viewin w
get_viewm1(outv:O v:V a:i) | 0<=a, a<=#v | excl v ; outv view v a #v
get_viewm1(outv:O v:V a:i) | | excl v ; outv viewin v
get_viewm0(outv:O v:V b:i) | 0<=b, b<=#v | excl v ; outv view v 0 b
get_viewm0(outv:O v:V b:i) | | excl v ; outv viewin v
get_viewm2(outv:O v:V a:i b:i) | 0<=a, a<=b, b<=#v | excl v ; outv view v a b
get_viewm2(outv:O v:V a:i b:i) | | excl v ; outv viewin v
viewm_viewm1(outv:O w:w a:i) | 0<=a, a<=#w | outv view w a #w
viewm_viewm1(outv:O w:w a:i) | | outv viewin w
viewm_viewm0(outv:O w:w b:i) | 0<=b, b<=#w | outv view w 0 b
viewm_viewm0(outv:O w:w b:i) | | outv viewin w
viewm_viewm2(outv:O w:w a:i b:i) | 0<=a, a<=b, b<=#w | outv view w a b
viewm_viewm2(outv:O w:w a:i b:i) | | outv viewin w
# ranges
range_size(out:O r:r) | | out int #r
range_data(out:O r:r) | | out ptr r 0
range_index(out:O r:r idx:i) | 0<=idx, idx<#r | out ptr r idx
range_index(out:O r:r idx:i) | idx<0 | out trap
range_index(out:O r:r idx:i) | #r<=idx | out trap
rangem_size(out:O r:R) | | out int #r
rangem_data(out:O r:R) | | out ptr r 0
rangem_data_mut(out:O r:R) | | excl r.v ; out ptr r 0
rangem_index(out:O r:R idx:i) | 0<=idx, idx<#r | out ptr r idx
rangem_index(out:O r:R idx:i) | idx<0 | out trap
rangem_index(out:O r:R idx:i) | #r<=idx | out trap
rangem_mutref(out:O r:R idx:i) | 0<=idx, idx<#r | excl r.v ; out ptr r idx
rangem_mutref(out:O r:R idx:i) | idx<0 | out trap
rangem_mutref(out:O r:R idx:i) | #r<=idx | out trap
range_get1(outr:O r:r a:i) | 0<=a, a<=#r | outr range r a #r
range_get1(outr:O r:r a:i) | | outr rangein r
range_get0(outr:O r:r b:i) | 0<=b, b<=#r | outr range r 0 b
range_get0(outr:O r:r b:i) | | outr rangein r
range_get2(outr:O r:r a:i b:i) | 0<=a, a<=b, b<=#r | outr range r a b
range_get2(outr:O r:r a:i b:i) | | outr rangein r
rangem_get1(outr:O r:R a:i) | 0<=a, a<=#r | outr range r a #r
rangem_get1(outr:O r:R a:i) | | outr rangein r
rangem_get0(outr:O r:R b:i) | 0<=b, b<=#r | outr range r 0 b
rangem_get0(outr:O r:R b:i) | | outr rangein r
rangem_get2(outr:O r:R a:i b:i) | 0<=a, a<=b, b<=#r | outr range r a b
rangem_get2(outr:O r:R a:i b:i) | | outr rangein r
rangem_push(r:R item:I) | | r.v = r.v[0:#r.v-r.R] item r.v[#r.v-r.R:]
rangem_insert(r:R idx:i item:I) | 0<=idx, idx<=#r | r.v = r.v[0:r.L+idx] item r.v[r.L+idx:]
rangem_unshift(r:R item:I) | | r.v = r.v[0:r.L] item r.v[r.L:]
rangem_resize(r:R n:i) | 0<=n, n<=#r | r.v = r.v[0:r.L+n] r.v[#r.v-r.R:]
rangem_resize(r:R n:i) | #r<=n | r.v = r.v[0:#r.v-r.R] zero*n-#r r.v[#r.v-r.R:]
rangem_grow(r:R n:i) | #r<=n | r.v = r.v[0:#r.v-r.R] zero*n-#r r.v[#r.v-r.R:]
rangem_shrink(r:R n:i) | 0<=n, n<=#r | r.v = r.v[0:r.L+n] r.v[#r.v-r.R:]
rangem_clear(r:R) | | r.v = r.v[0:r.L] r.v[#r.v-r.R:]
rangem_pop(r:R) | 1<=#r | r.v = r.v[0:#r.v-r.R-1] r.v[#r.v-r.R:]
rangem_splice_del(r:R idx:i del:i) | 0<=idx, idx<#r, 0<=del, idx+del<=#r | r.v = r.v[0:r.L+idx] r.v[r.L+idx+del:]
rangem_splice_move(r:R idx:i del:i x:V) | 0<=idx, idx<#r, 0<=del, idx+del<=#r | r.v = r.v[0:r.L+idx] x r.v[r.L+idx+del:] ; x any
rangem_append_move(r:R x:V) | | r.v = r.v[0:#r.v-r.R] x r.v[#r.v-r.R:] ; x any
rangem_assign_move(r:R x:V) | | r.v = r.v[0:r.L] x r.v[#r.v-r.R:] ; x any
rangem_dmove(ret:U r:R) | | ret = r.v[r.L:#r.v-r.R] ; r.v any
rangem_dmove_default(ret:U r:R) | | ret = r.v[r.L:#r.v-r.R] ; r.v any
rangem_swap_vec@int/long/blob/obj/uniq(r:R x:V) | | r.v = r.v[0:r.L] x r.v[#r.v-r.R:] ; x = r.v[r.L:#r.v-r.R]
rangem_swap@blob/obj/uniq(r:R q:R) | | r.v = r.v[0:r.L] q.v[q.L:#q.v-q.R] r.v[#r.v-r.R:] ; q.v = q.v[0:q.L] r.v[r.L:#r.v-r.R] q.v[#q.v-q.R:]
rangem_swap_move@blob/obj/uniq(r:R q:R) | | r.v = r.v[0:r.L] q.v[q.L:#q.v-q.R] r.v[#r.v-r.R:] ; q.v = q.v[0:q.L] r.v[r.L:#r.v-r.R] q.v[#q.v-q.R:]
range_bool(out:O r:r) | | out nz #r
rangem_bool(out:O r:R) | | out nz #r
# copying
copy_ctor(ret:U x:C) | | ret = x
copy_assign(v:V x:C) | | v = x
splice_copy(v:V idx:i del:i s:S n:i) | 0<=idx, 0<=del, idx+del<=#v, 0<=n | v = v[0:idx] s[0:n] v[idx+del:]
splice_view(v:V idx:i del:i w:W) | 0<=idx, 0<=del, idx+del<=#v | v = v[0:idx] w v[idx+del:]
append_copy(v:V s:S n:i) | 0<=n | v = v s[0:n]
append_del_copy(v:V del:i s:S n:i) | 0<=del, del<=#v, 0<=n | v = v[0:#v-del] s[0:n]
append_self(v:V) | | v = v v
append_view(v:V w:W) | | v = v w
init_copy(ret:Z s:S n:i) | 0<=n | ret = s[0:n]
init_copy2(ret:Z s:S n:i t:S m:i) | 0<=n, 0<=m | ret = s[0:n] t[0:m]
plus_move_view(ret:U v:V w:W) | | ret = v w ; v any
plus_view_move(ret:U w:W v:V) | | ret = w v ; v any
plus_copy_copy(ret:U v:C x:C) | | ret = v x
plus_copy_view(ret:U v:C w:W) | | ret = v w
plus_view_copy(ret:U w:W v:C) | | ret = w v
plus_view_view(ret:U w:W y:W) | | ret = w y
plus_copy_one(ret:U v:C item:I) | | ret = v item
one_plus_copy(ret:U item:I v:C) | | ret = item v
pluseq_view(v:V w:W) | | v = v w
slice_copy(ret:U v:C a:i b:i) | 0<=a, a<=b, b<=#v | ret = v[a:b]
slice_copy1(ret:U v:C a:i) | 0<=a, a<=#v | ret = v[a:]
range_to_vec(ret:U r:r) | | ret = r.v[r.L:#r.v-r.R]
rangem_to_vec(ret:U r:R) | | ret = r.v[r.L:#r.v-r.R]
rangem_splice_view(r:R idx:i del:i w:W) | 0<=idx, idx<#r, 0<=del, idx+del<=#r | r.v = r.v[0:r.L+idx] w r.v[r.L+idx+del:]
rangem_append_view(r:R w:W) | | r.v = r.v[0:#r.v-r.R] w r.v[#r.v-r.R:]
rangem_append_copy(r:R s:S n:i) | 0<=n | r.v = r.v[0:#r.v-r.R] s[0:n] r.v[#r.v-r.R:]
rangem_assign_copy(r:R x:C) | | r.v = r.v[0:r.L] x r.v[#r.v-r.R:]
# strings
view_assign@char(w:w y:W) | #w<=#y, #y<=#w | w = y
to_str@char(ret:U c:T) | | ret = c[0:#c]
strlit_str@char(ret:U lit:W) | | ret = lit
strlit_index@char(out:O lit:W idx:i) | 0<=idx, idx<#lit | out ptr lit idx
strlit_index@char(out:O lit:W idx:i) | idx<0 | out trap
strlit_index@char(out:O lit:W idx:i) | #lit<=idx | out trap
cstr2vec_copy@char(v:V s:S n:i) | 0<=n | v = s[0:n]
# more ways to say it
slice1_move(ret:U v:V a:i) | 0<=a, a<=#v | ret = v[a:] ; v any
substr_move(ret:U v:V a:i b:i) | 0<=a, 0<=b, a+b<=#v | ret = v[a:a+b] ; v any
vec_of_slate(ret:U sl:L) | | ret = sl
vec_of_array(ret:U sl:L) | | ret = sl
swap_range@blob/obj/uniq(v:V r:R) | | v = r.v[r.L:#r.v-r.R] ; r.v = r.v[0:r.L] v r.v[#r.v-r.R:]
swap_range_rv@blob/obj/uniq(v:V r:R) | | v = r.v[r.L:#r.v-r.R] ; r.v = r.v[0:r.L] v r.v[#r.v-r.R:]
reserve0@char/int/long/blob/obj(v:V) | | v same ; excl v
vec_range1(outr:O v:C a:i) | 0<=a, a<=#v | outr range v a #v
vec_range1(outr:O v:C a:i) | | outr rangein v
vec_range0(outr:O v:C b:i) | 0<=b, b<=#v | outr range v 0 b
vec_range0(outr:O v:C b:i) | | outr rangein v
vec_range2(outr:O v:C a:i b:i) | 0<=a, a<=b, b<=#v | outr range v a b
vec_range2(outr:O v:C a:i b:i) | | outr rangein v
vec_rangem1(outr:O v:V a:i) | 0<=a, a<=#v | outr range v a #v
vec_rangem1(outr:O v:V a:i) | | outr rangein v
vec_rangem0(outr:O v:V b:i) | 0<=b, b<=#v | outr range v 0 b
vec_rangem0(outr:O v:V b:i) | | outr rangein v
vec_rangem2(outr:O v:V a:i b:i) | 0<=a, a<=b, b<=#v | outr range v a b
vec_rangem2(outr:O v:V a:i b:i) | | outr rangein v
rangem_cget1(outr:O r:R a:i) | 0<=a, a<=#r | outr range r a #r
rangem_cget1(outr:O r:R a:i) | | outr rangein r
rangem_cget0(outr:O r:R b:i) | 0<=b, b<=#r | outr range r 0 b
rangem_cget0(outr:O r:R b:i) | | outr rangein r
rangem_cget2(outr:O r:R a:i b:i) | 0<=a, a<=b, b<=#r | outr range r a b
rangem_cget2(outr:O r:R a:i b:i) | | outr rangein r
range_of_rangem(outr:O r:R) | | outr range r 0 #r
view_of_range(outv:O r:r) | | outv view r 0 #r
viewm_of_range(outv:O r:R) | | excl r.v ; outv view r 0 #r
range_view1(outv:O r:r a:i) | 0<=a, a<=#r | outv view r a #r
range_view1(outv:O r:r a:i) | | outv viewin r
range_view2(outv:O r:r a:i b:i) | 0<=a, a<=b, b<=#r | outv view r a b
range_view2(outv:O r:r a:i b:i) | | outv viewin r
rangem_viewm1(outv:O r:R a:i) | 0<=a, a<=#r | excl r.v ; outv view r a #r
rangem_viewm1(outv:O r:R a:i) | | excl r.v ; outv viewin r
rangem_viewm2(outv:O r:R a:i b:i) | 0<=a, a<=b, b<=#r | excl r.v ; outv view r a b
rangem_viewm2(outv:O r:R a:i b:i) | | excl r.v ; outv viewin r
viewm_rv1(outv:O w:w a:i) | 0<=a, a<=#w | outv view w a #w
viewm_rv1(outv:O w:w a:i) | | outv viewin w
viewm_rv2(outv:O w:w a:i b:i) | 0<=a, a<=b, b<=#w | outv view w a b
viewm_rv2(outv:O w:w a:i b:i) | | outv viewin w
view_size(out:O out2:O w:W) | | out int #w ; out2 ptr w 0
viewm_size(out:O out2:O w:w) | | out int #w ; out2 ptr w 0
view_begin_end(out:O out2:O w:W) | | out ptr w 0 ; out2 ptr w #w
viewm_begin_end(out:O out2:O w:w) | | out ptr w 0 ; out2 ptr w #w
view_bool(out:O w:W) | | out nz #w
viewm_bool(out:O w:w) | | out nz #w
view_reassign(outv:O w:W) | | outv view w 0 #w
viewm_reassign(outv:O w:w) | | outv view w 0 #w
range_reassign(outr:O r:r) | | outr range r 0 #r
rangem_reassign(outr:O r:R) | | outr range r 0 #r
rangem_append_del_move(r:R del:i x:V) | 0<=del, del<=#r | r.v = r.v[0:#r.v-r.R-del] x r.v[#r.v-r.R:] ; x any
range_pluseq_move(r:R x:V) | | r.v = r.v[0:#r.v-r.R] x r.v[#r.v-r.R:] ; x any
range_pluseq_one(r:R item:I) | | r.v = r.v[0:#r.v-r.R] item r.v[#r.v-r.R:]
rrange_pluseq_move(r:R x:V) | | r.v = r.v[0:#r.v-r.R] x r.v[#r.v-r.R:] ; x any
rrange_pluseq_one(r:R item:I) | | r.v = r.v[0:#r.v-r.R] item r.v[#r.v-r.R:]
# more ways to copy
push_copy(v:V item:K) | | v = v item
insert_copy(v:V idx:i item:K) | 0<=idx, idx<=#v | v = v[0:idx] item v[idx:]
unshift_copy(v:V item:K) | | v = item v
rangem_push_copy(r:R item:K) | | r.v = r.v[0:#r.v-r.R] item r.v[#r.v-r.R:]
rangem_insert_copy(r:R idx:i item:K) | 0<=idx, idx<=#r | r.v = r.v[0:r.L+idx] item r.v[r.L+idx:]
rangem_unshift_copy(r:R item:K) | | r.v = r.v[0:r.L] item r.v[r.L:]
plus_conv(ret:U v:V item:K) | | ret = v item ; v any
conv_plus(ret:U item:K v:V) | | ret = item v ; v any
plus_copy_conv(ret:U v:C item:K) | | ret = v item
conv_plus_copy(ret:U item:K v:C) | | ret = item v
view_plus_conv(ret:U w:W item:K) | | ret = w item
conv_plus_view(ret:U item:K w:W) | | ret = item w
pluseq_conv(v:V item:K) | | v = v item
range_pluseq_conv(r:R item:K) | | r.v = r.v[0:#r.v-r.R] item r.v[#r.v-r.R:]
rrange_pluseq_conv(r:R item:K) | | r.v = r.v[0:#r.v-r.R] item r.v[#r.v-r.R:]
range_pluseq_view(r:R w:W) | | r.v = r.v[0:#r.v-r.R] w r.v[#r.v-r.R:]
rrange_pluseq_view(r:R w:W) | | r.v = r.v[0:#r.v-r.R] w r.v[#r.v-r.R:]
pluseq_vec(v:V x:C) | | v = v x
pluseq_range(v:V q:q) | | v = v q
plus_move_copy(ret:U v:V x:C) | | ret = v x ; v any
plus_copy_move(ret:U x:C v:V) | | ret = x v ; v any
plus_move_range(ret:U v:V q:q) | | ret = v q ; v any
plus_range_move(ret:U v:V q:q) | | ret = q v ; v any
plus_copy_range(ret:U v:C q:q) | | ret = v q
plus_range_copy(ret:U v:C q:q) | | ret = q v
slice1_copy(ret:U v:C a:i) | 0<=a, a<=#v | ret = v[a:]
substr_copy(ret:U v:C a:i b:i) | 0<=a, 0<=b, a+b<=#v | ret = v[a:a+b]
splice_vec@int/long/blob/obj(v:V idx:i del:i x:C) | 0<=idx, 0<=del, idx+del<=#v | v = v[0:idx] x v[idx+del:]
splice_self(v:V idx:i del:i) | 0<=idx, 0<=del, idx+del<=#v | v = v[0:idx] v v[idx+del:]
splice_range@int/long/blob/obj(v:V idx:i del:i q:q) | 0<=idx, 0<=del, idx+del<=#v | v = v[0:idx] q v[idx+del:]
append_vec(v:V x:C) | | v = v x
append_range(v:V q:q) | | v = v q
assign_range(v:V q:q) | | v = q
assign_rangem(v:V q:q) | | v = q
rangem_splice_vec@int/long/blob/obj(r:R idx:i del:i x:C) | 0<=idx, idx<#r, 0<=del, idx+del<=#r | r.v = r.v[0:r.L+idx] x r.v[r.L+idx+del:]
rangem_append_vec@int/long/blob/obj(r:R x:C) | | r.v = r.v[0:#r.v-r.R] x r.v[#r.v-r.R:]
rangem_append_del_copy@int/long/blob/obj(r:R del:i s:S n:i) | 0<=del, del<=#r, 0<=n | r.v = r.v[0:#r.v-r.R-del] s[0:n] r.v[#r.v-r.R:]
rangem_assign_range@int/long/blob/obj(r:R q:q) | | r.v = r.v[0:r.L] q r.v[#r.v-r.R:]
rangem_assign_view@int/long/blob/obj(r:R q:q) | | r.v = r.v[0:r.L] q r.v[#r.v-r.R:]
viewm_of_slate(outv:O sl:L) | | outv view sl 0 7
