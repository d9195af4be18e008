// large_ints.hpp
#include "api.hpp"
using namespace poly_ops::large_ints;
template<typename A> void un(A a) {
    (void)(a == 0); (void)(0 == a); (void)(a != 0); (void)(a < 0); (void)(a <= 1); (void)(a > 1); (void)(a >= 1); (void)(0 < a); (void)static_cast<double>(a); (void)static_cast<float>(a); (void)static_cast<int>(a); (void)static_cast<long long>(a); (void)bool(a); (void)abs(a); (void)negative(a); (void)countl_zero(a); (void)shift_left(a,3); (void)shift_right(a,3);
    (void)(a+1); (void)(1+a); (void)(a-1); (void)(1-a); (void)(a*3); (void)(3*a); (void)(a/3);
    if constexpr(std::is_constructible_v<A,int> && requires { a += 1; }) { a += 1; a -= 1; } else { a += 1u; a -= 1u; } (void)(a >> 3); (void)(a << 3); a >>= 3; a <<= 3; (void)a.hi(); (void)a[0]; A b(a); b = a; (void)a.negative();
}
template<typename A,typename B> void bin(A a,B b) {
    (void)(a+b); (void)(a-b); (void)(a*b); (void)(a == b); (void)(a != b); (void)(a < b); (void)(a <= b); (void)(a > b); (void)(a >= b); (void)(a <=> b);
    (void)add(a,b); (void)sub(a,b); (void)mul(a,b); (void)eq(a,b); (void)cmp(a,b); (void)divmod(a,b).quot; (void)divmod(a,b,modulo_t::euclid).rem; (void)unmul<2>(a,b).quot; (void)(a/b);
}
using I2 = compound_xint<2,true>; using U2 = compound_xint<2,false>; using I3 = compound_xint<3,true>; using U3 = compound_xint<3,false>; using I4 = compound_xint<4,true>; using I1 = compound_xint<1,true>;
void f() {
    un(I2{1}); un(U2{1u}); un(I3{1}); un(U3{1u}); un(I1{1}); (void)-I2{1}; (void)-I3{1}; (void)-I1{1};
    bin(I2{1},I2{1}); bin(I3{1},I2{1}); bin(I2{1},5l); bin(I4{1},I3{1}); bin(U2{1u},U2{1u}); bin(U3{1u},U2{1u}); bin(U3{1u},7ul);
    I3 x{1}; x += I2{1}; x -= I2{1};
    (void)unmul<1>(I2{1},I1{1}).quot; (void)unmul<1>(I2{1},5l).quot; (void)unmul<1>(I2{1},5l,modulo_t::euclid).quot;
}
static_assert(std::same_as<sized_int<1>,std::int8_t> && std::same_as<sized_int<2>,std::int16_t> && std::same_as<sized_int<4>,std::int32_t> && std::same_as<sized_int<8>,std::int64_t>);
static_assert(std::same_as<decltype(mul(1,1)),std::int64_t> && std::same_as<decltype(mul(short(1),short(1))),std::int32_t>);
void g() { (void)add(1,2); (void)sub(1l,2l); (void)mul(1l,2l); (void)mul(1ul,2ul); (void)abs(-1); (void)negative(-1); (void)cmp(1,2l); (void)eq(1,2l); (void)countl_zero(1u); (void)countl_zero(1ul); }
static_assert(sizeof(decltype(mul(1l,1l))) == 16 && std::same_as<sized_int<16>,decltype(mul(1l,1l))>);
