/* Division of integers of several words (large_ints.hpp) in terms of the
   long division of unsigned integers, which is left open: uq and ur are word i
   of the quotient and remainder.
   DIV_PLAIN: without compiler extensions. */
#ifdef DIV_PLAIN
#define POLY_OPS_NO_COMPILER_EXTENSIONS 1
#endif
#include <concepts>
#include <cstdint>
#include <cmath>
#include <type_traits>
#include <algorithm>
#include <compare>
#include <bit>
#include <cassert>
#include <poly_ops/large_ints.hpp>
using namespace poly_ops::large_ints;
using W = full_uint;
extern "C" {
W uq(unsigned i,W a0,W a1,W a2,W b0,W b1,W b2) noexcept __attribute__((const));
W ur(unsigned i,W a0,W a1,W a2,W b0,W b1,W b2) noexcept __attribute__((const));
}
namespace poly_ops::large_ints::detail {
#define SHIFT_SUB(N,A2,B2) \
    template<> inline void udivmod_shift_sub<N>(full_uint *a,full_uint *b,full_uint *q) noexcept { \
        W a0 = a[0], a1 = a[1], a2 = A2, b0 = b[0], b1 = b[1], b2 = B2; \
        for(unsigned i=0; i<N; ++i) { q[i] = uq(i,a0,a1,a2,b0,b1,b2); a[i] = ur(i,a0,a1,a2,b0,b1,b2); } \
    }
SHIFT_SUB(2,0,0)
SHIFT_SUB(3,a[2],b[2])
}
template<unsigned N,bool S> inline compound_xint<N,S> mk(const W *w) {
    compound_xint<N,S> r;
    for(unsigned i=0; i<N; ++i) r[i] = w[i];
    return r;
}
constexpr auto T = modulo_t::truncate;
constexpr auto E = modulo_t::euclid;
/* divmod: quotient (q) and remainder (r), N words by M words */
#define WW(M_,N,K,I,S,Z) \
    W w_##M_##q_##S##N##K##_##I(const W *a,const W *b) { return compound_xint<3,Z>(divmod(mk<N,Z>(a),mk<K,Z>(b),M_).quot)[I]; } \
    W w_##M_##r_##S##N##K##_##I(const W *a,const W *b) { return compound_xint<3,Z>(divmod(mk<N,Z>(a),mk<K,Z>(b),M_).rem)[I]; }
#define WI(M_,N,K,TY,I,S,Z) \
    W w_##M_##q_##S##N##K##_##I(const W *a,TY b) { return compound_xint<3,Z>(divmod(mk<N,Z>(a),b,M_).quot)[I]; } \
    W w_##M_##r_##S##N##K##_##I(const W *a,TY b) { return compound_xint<3,Z>(divmod(mk<N,Z>(a),b,M_).rem)[I]; }
#define ALL(F,...) F(__VA_ARGS__)
#define I3W(M_,N,K,S,Z) WW(M_,N,K,0,S,Z) WW(M_,N,K,1,S,Z) WW(M_,N,K,2,S,Z)
#define I3I(M_,N,K,TY,S,Z) WI(M_,N,K,TY,0,S,Z) WI(M_,N,K,TY,1,S,Z) WI(M_,N,K,TY,2,S,Z)
#define MODE(M_) \
    I3W(M_,1,1,s,true) I3W(M_,2,1,s,true) I3W(M_,2,2,s,true) I3W(M_,3,1,s,true) I3W(M_,3,2,s,true) I3W(M_,3,3,s,true) \
    I3I(M_,2,i,std::int64_t,s,true) I3I(M_,3,i,std::int64_t,s,true) I3I(M_,2,h,std::int32_t,s,true) I3I(M_,2,u,std::uint64_t,s,true)
extern "C" {
MODE(T)
MODE(E)
I3W(T,1,1,u,false) I3W(T,2,1,u,false) I3W(T,2,2,u,false) I3W(T,3,1,u,false) I3W(T,3,2,u,false) I3W(T,3,3,u,false)
I3I(T,2,u,std::uint64_t,u,false) I3I(T,3,u,std::uint64_t,u,false)
/* operators */
#define OP(N,I) \
    W w_oq_s##N##N##_##I(const W *a,const W *b) { return (mk<N,true>(a)/mk<N,true>(b))[I]; } \
    W w_oq_s##N##i_##I(const W *a,std::int64_t b) { return (mk<N,true>(a)/b)[I]; } \
    W w_oq_u##N##N##_##I(const W *a,const W *b) { return (mk<N,false>(a)/mk<N,false>(b))[I]; }
OP(2,0) OP(2,1) OP(3,0) OP(3,1) OP(3,2)
/* unmul: quotients of one word */
#define UN(M_,N,K) \
    W w_##M_##q_s##N##K##x_0(const W *a,const W *b) { return unmul<1>(mk<N,true>(a),mk<K,true>(b),M_).quot[0]; } \
    W w_##M_##r_s##N##K##x_0(const W *a,const W *b) { return unmul<1>(mk<N,true>(a),mk<K,true>(b),M_).rem[0]; }
#define UNI(M_,N) \
    W w_##M_##q_s##N##ix_0(const W *a,std::int64_t b) { return unmul<1>(mk<N,true>(a),b,M_).quot[0]; } \
    W w_##M_##r_s##N##ix_0(const W *a,std::int64_t b) { return unmul<1>(mk<N,true>(a),b,M_).rem[0]; }
UN(T,2,1) UN(E,2,1) UN(T,3,2) UN(E,3,2) UNI(T,2) UNI(E,2) UNI(T,3) UNI(E,3)
}
