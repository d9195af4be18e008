/* Integers of several words (large_ints.hpp) as functions of their words.
   INTS_PLAIN: without compiler extensions; INTS_OVF: with the overflow
   builtins but without those for carries. */
#ifdef INTS_PLAIN
#define POLY_OPS_NO_COMPILER_EXTENSIONS 1
#endif
#include <concepts>
#include <cstdint>
#include <cmath>
#include <type_traits>
#include <algorithm>
#include <compare>
#include <bit>
#include <cassert>
#ifdef INTS_OVF
#undef __has_builtin
#define __has_builtin(x) 0
#endif
#include <poly_ops/large_ints.hpp>
using namespace poly_ops::large_ints;
using W = full_uint;
template<unsigned N,bool S> inline compound_xint<N,S> mk(const W *w) {
    compound_xint<N,S> r;
    for(unsigned i=0; i<N; ++i) r[i] = w[i];
    return r;
}
template<typename T> inline W word(const T &x,unsigned i) { return x[i]; }
inline int ord(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
#define DO2(F,...) F(2,0,__VA_ARGS__) F(2,1,__VA_ARGS__)
#define DO3(F,...) F(3,0,__VA_ARGS__) F(3,1,__VA_ARGS__) F(3,2,__VA_ARGS__)
#define OPS(N,I,S,Z) \
    W w_add_##S##N##_##I(const W *a,const W *b) { return word(mk<N,Z>(a)+mk<N,Z>(b),I); } \
    W w_sub_##S##N##_##I(const W *a,const W *b) { return word(mk<N,Z>(a)-mk<N,Z>(b),I); } \
    W w_addto_##S##N##_##I(const W *a,const W *b) { auto x = mk<N,Z>(a); auto y = mk<N,Z>(b); x += y; return x[I]; } \
    W w_subto_##S##N##_##I(const W *a,const W *b) { auto x = mk<N,Z>(a); auto y = mk<N,Z>(b); x -= y; return x[I]; } \
    W w_addi_##S##N##_##I(const W *a,std::int64_t b) { return word(mk<N,Z>(a)+b,I); } \
    W w_subi_##S##N##_##I(const W *a,std::int64_t b) { return word(mk<N,Z>(a)-b,I); } \
    W w_isub_##S##N##_##I(const W *a,std::int64_t b) { return word(b-mk<N,Z>(a),I); } \
    W w_addh_##S##N##_##I(const W *a,std::int32_t b) { return word(mk<N,Z>(a)+b,I); } \
    W w_addu_##S##N##_##I(const W *a,std::uint64_t b) { return word(mk<N,Z>(a)+b,I); } \
    W w_subu_##S##N##_##I(const W *a,std::uint64_t b) { return word(mk<N,Z>(a)-b,I); } \
    W w_add1_##S##N##_##I(const W *a,const W *b) { return word(mk<N,Z>(a)+mk<2,Z>(b),I); } \
    W w_sub1_##S##N##_##I(const W *a,const W *b) { return word(mk<N,Z>(a)-mk<2,Z>(b),I); } \
    W w_aradd_##S##N##_##I(const W *a,const W *b) { W r[N]; ar_add(N,a,b,r); return r[I]; } \
    W w_arsub_##S##N##_##I(const W *a,const W *b) { W r[N]; ar_sub(N,a,b,r); return r[I]; }
#define ASG(I,S,Z,N) \
    W w_asg_##S##N##_##I(const W *a) { compound_xint<3,Z> x; for(unsigned i=0; i<3; ++i) x[i] = 77; x = mk<N,Z>(a); return x[I]; } \
    W w_wide_##S##N##_##I(const W *a) { return compound_xint<3,Z>{mk<N,Z>(a)}[I]; }
#define NEG(N,I,S,Z) \
    W w_neg_##S##N##_##I(const W *a) { return word(-mk<N,Z>(a),I); } \
    W w_abs_##S##N##_##I(const W *a) { return word(poly_ops::large_ints::abs(mk<N,Z>(a)),I); }
#define REL(N,S,Z) \
    int w_cmp_##S##N(const W *a,const W *b) { return ord(mk<N,Z>(a) <=> mk<N,Z>(b)); } \
    int w_cmpi_##S##N(const W *a,std::int64_t b) { return ord(mk<N,Z>(a) <=> b); } \
    int w_cmpu_##S##N(const W *a,std::uint64_t b) { return ord(mk<N,Z>(a) <=> b); } \
    int w_cmp2_##S##N(const W *a,const W *b) { return ord(mk<N,Z>(a) <=> mk<2,Z>(b)); } \
    int w_eq_##S##N(const W *a,const W *b) { return mk<N,Z>(a) == mk<N,Z>(b); } \
    int w_eqi_##S##N(const W *a,std::int64_t b) { return mk<N,Z>(a) == b; } \
    int w_less_##S##N(const W *a,const W *b) { return mk<N,Z>(a) < mk<N,Z>(b); } \
    int w_lessi_##S##N(const W *a,std::int64_t b) { return mk<N,Z>(a) < b; } \
    int w_iless_##S##N(const W *a,std::int64_t b) { return b < mk<N,Z>(a); } \
    int w_negative_##S##N(const W *a) { return poly_ops::large_ints::negative(mk<N,Z>(a)); } \
    int w_bool_##S##N(const W *a) { return static_cast<bool>(mk<N,Z>(a)); }
#define ALL2(F,...) F(0,__VA_ARGS__) F(1,__VA_ARGS__)
#define ALL3(F,...) ALL2(F,__VA_ARGS__) F(2,__VA_ARGS__)
#define ALL4(F,...) ALL3(F,__VA_ARGS__) F(3,__VA_ARGS__)
#define ALL5(F,...) ALL4(F,__VA_ARGS__) F(4,__VA_ARGS__)
/* products: words of a and of b */
#define MUL(I,S,Z,NA,NB) W w_mul_##S##NA##NB##_##I(const W *a,const W *b) { return word(mk<NA,Z>(a)*mk<NB,Z>(b),I); }
#define MUL1(I,S,Z,T) W w_mul_##S##11_##I(T a,T b) { return word(mul(a,b),I); }
#define MULI(I,S,Z,NA) W w_muli_##S##NA##_##I(const W *a,std::int64_t b) { return word(mk<NA,Z>(a)*b,I); } \
    W w_imul_##S##NA##_##I(const W *a,std::int64_t b) { return word(b*mk<NA,Z>(a),I); } \
    W w_mulh_##S##NA##_##I(const W *a,std::int32_t b) { return word(mk<NA,Z>(a)*b,I); }
template<typename A,typename B> inline W prod(const A &a,const B &b,unsigned i) {
    if constexpr(std::is_void_v<decltype(a*b)>) return a[i]^(W(b)+i+1);   // there is none
    else return (a*b)[i];
}
template<typename B,typename A> inline W prodr(const B &b,const A &a,unsigned i) {
    if constexpr(std::is_void_v<decltype(b*a)>) return a[i]^(W(b)+i+1);
    else return (b*a)[i];
}
#define MULU(I,S,Z,NA) W w_mulu_##S##NA##_##I(const W *a,std::uint64_t b) { return prod(mk<NA,Z>(a),b,I); } \
    W w_umul_##S##NA##_##I(const W *a,std::uint64_t b) { return prodr(b,mk<NA,Z>(a),I); }
/* shifts by A bits */
#define SH(I,A,S,Z,N) \
    W w_shl##A##_##S##N##_##I(const W *a) { return word(mk<N,Z>(a) << A,I); } \
    W w_shr##A##_##S##N##_##I(const W *a) { return word(mk<N,Z>(a) >> A,I); } \
    W w_shlto##A##_##S##N##_##I(const W *a) { auto x = mk<N,Z>(a); x <<= A; return x[I]; } \
    W w_shrto##A##_##S##N##_##I(const W *a) { auto x = mk<N,Z>(a); x >>= A; return x[I]; }
#define SHN(A) ALL2(SH,A,s,true,2) ALL2(SH,A,u,false,2) ALL3(SH,A,s,true,3) ALL3(SH,A,u,false,3)
extern "C" {
DO2(OPS,s,true) DO3(OPS,s,true) DO2(OPS,u,false) DO3(OPS,u,false)
DO2(NEG,s,true) DO3(NEG,s,true)
REL(2,s,true) REL(3,s,true) REL(2,u,false) REL(3,u,false)
ALL3(ASG,s,true,2) ALL3(ASG,u,false,2)
ALL2(MUL1,s,true,std::int64_t) ALL2(MUL1,u,false,std::uint64_t)
ALL4(MUL,s,true,2,2) ALL4(MUL,u,false,2,2) ALL5(MUL,s,true,3,2) ALL5(MUL,s,true,2,3)
ALL3(MULI,s,true,2) ALL4(MULI,s,true,3) ALL3(MULU,u,false,2) ALL4(MULU,u,false,3) ALL4(MULU,s,true,2)
SHN(0) SHN(1) SHN(31) SHN(63) SHN(64) SHN(65) SHN(127)
ALL3(SH,128,s,true,3) ALL3(SH,128,u,false,3) ALL3(SH,130,s,true,3) ALL3(SH,130,u,false,3) ALL3(SH,191,s,true,3) ALL3(SH,191,u,false,3)
}
