// Conformance harness support: describes operand types, generates operand values, evaluates an
// expression of the library under study and records what happened as one JSON object per line.
// Only the documented public interface of the library is used.
#ifndef VT_HPP
#define VT_HPP
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include <algorithm>
#include <sstream>

#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/exception.hpp>
#include <boost/safe_numerics/exception_policies.hpp>
#include <boost/safe_numerics/checked_default.hpp>
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/checked_result.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/safe_compare.hpp>
#include <boost/safe_numerics/utility.hpp>

namespace vt {
namespace sn = boost::safe_numerics;
typedef __int128 i128;

// ---------------------------------------------------------------- numbers
inline void num(std::string & o, i128 x){
    bool neg = x < 0;
    unsigned __int128 m = neg ? -(unsigned __int128)x : (unsigned __int128)x;
    o += '[';
    o += m == 0 ? "0" : neg ? "-1" : "1";
    while(m){ o += ','; o += std::to_string((unsigned)(m & 0x7fff)); m >>= 15; }
    o += ']';
}
inline std::string num(i128 x){ std::string o; num(o, x); return o; }

// ---------------------------------------------------------------- errors
inline const char * code(sn::safe_numerics_error e){
    using E = sn::safe_numerics_error;
    switch(e){
    case E::success: return "ok";
    case E::positive_overflow_error: return "pos";
    case E::negative_overflow_error: return "neg";
    case E::domain_error: return "dom";
    case E::range_error: return "range";
    case E::precision_overflow_error: return "prec";
    case E::underflow_error: return "under";
    case E::negative_value_shift: return "nvs";
    case E::negative_shift: return "ns";
    case E::shift_too_large: return "stl";
    case E::uninitialized_value: return "uninit";
    }
    return "bad_code";
}
struct thrown { char h; sn::safe_numerics_error e; };
template<char H> struct on_error {
    constexpr on_error() = default;
    void operator()(const sn::safe_numerics_error & e, const char *){ throw thrown{H, e}; }
};
// arithmetic, implementation defined, undefined, uninitialized
using throwing = sn::exception_policy<on_error<'a'>, on_error<'i'>, on_error<'u'>, on_error<'v'>>;

// ---------------------------------------------------------------- guarded evaluation
void install_traps();
struct outcome { const char * k; char h; i128 v; };
typedef i128 (*eval2)(i128 t, i128 u);
// evaluate f(t, u), turning exceptions and fatal signals into outcomes
outcome run(eval2 f, i128 t, i128 u);

// ---------------------------------------------------------------- types
template<class B> struct tname;
#define VT_N(T, n) template<> struct tname<T>{ static const char * get(){ return n; } };
VT_N(signed char, "sc") VT_N(unsigned char, "uc") VT_N(char, "c")
VT_N(short, "s") VT_N(unsigned short, "us") VT_N(int, "i") VT_N(unsigned int, "ui")
VT_N(long, "l") VT_N(unsigned long, "ul") VT_N(long long, "ll") VT_N(unsigned long long, "ull")
VT_N(wchar_t, "wc") VT_N(char16_t, "c16") VT_N(char32_t, "c32") VT_N(bool, "b")

template<class T> struct is_lit : std::false_type {};
template<class T, T N, class P, class E>
struct is_lit<sn::safe_literal_impl<T, N, P, E>> : std::true_type {};

template<class T> using base = typename sn::base_type<T>::type;

// an operand of type T with value v; a literal has only the one value
template<class T> constexpr T make_(base<T> v, std::false_type){ return T(v); }
template<class T> constexpr T make_(base<T>, std::true_type){ return T(); }
template<class T> constexpr T make(base<T> v){ return make_<T>(v, typename is_lit<T>::type()); }

template<class T> constexpr i128 value_of(const T & t){ return static_cast<i128>(static_cast<base<T>>(t)); }
template<class T> i128 lo(){ return value_of(std::numeric_limits<T>::min()); }
template<class T> i128 hi(){ return value_of(std::numeric_limits<T>::max()); }

struct tdesc { const char * n; bool s; unsigned b; bool sf; i128 lo, hi; };
template<class T> tdesc desc(){
    using B = base<T>;
    return tdesc{tname<B>::get(), B(-1) < B(0), sizeof(B) * 8, sn::is_safe<T>::value, lo<T>(), hi<T>()};
}
void describe(std::string & o, const tdesc & d);
template<class T> void describe(std::string & o){ describe(o, desc<T>()); }

// ---------------------------------------------------------------- values
struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    std::uint64_t next(){
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull;
    }
    std::uint64_t below(std::uint64_t n){ return n ? next() % n : 0; }
};
std::uint64_t hash(const char * s, std::uint64_t h = 1469598103934665603ull);
i128 random_in(rng & r, i128 l, i128 h);
// the interesting members of [l, h]
std::vector<i128> interesting(i128 l, i128 h);
// operand pairs: corners, operands that put the result right at a representable limit, random pairs
struct pair { i128 t, u; };
std::vector<pair> pairs(const std::string & op, i128 tl, i128 th, i128 ul, i128 uh, i128 rl, i128 rh,
                        unsigned bits, unsigned n, rng & r);

extern std::uint64_t seed;
extern unsigned budget;     // cases per row
extern FILE * out;
extern int label;           // put into every row when not negative
void emit(const std::string & line);

// ---------------------------------------------------------------- rows
struct row {
    std::string s; unsigned n = 0;
    std::string head;
    void begin(const std::string & h){ head = h; s.clear(); n = 0; }
    void add(i128 t, i128 u, const outcome & o, const i128 * after = 0);
    void flush();
};

// the value of an expression that must refer to the variable it changed
template<class R, class T> i128 yields(const R & r, const T & x){
    return static_cast<const void *>(&r) == static_cast<const void *>(&x) ? value_of(r) : i128(1) << 100;
}

#define VT_BIN(NAME, TEXT, EXPR) struct NAME { \
    static const char * text(){ return TEXT; } \
    template<class T, class U> static constexpr auto call(const T & a, const U & b) -> decltype(EXPR) { return EXPR; } };
VT_BIN(op_add, "+", a + b) VT_BIN(op_sub, "-", a - b) VT_BIN(op_mul, "*", a * b)
VT_BIN(op_div, "/", a / b) VT_BIN(op_mod, "%", a % b)
VT_BIN(op_shl, "<<", a << b) VT_BIN(op_shr, ">>", a >> b)
VT_BIN(op_and, "&", a & b) VT_BIN(op_or, "|", a | b) VT_BIN(op_xor, "^", a ^ b)
VT_BIN(op_lt, "<", a < b) VT_BIN(op_le, "<=", a <= b) VT_BIN(op_gt, ">", a > b)
VT_BIN(op_ge, ">=", a >= b) VT_BIN(op_eq, "==", a == b) VT_BIN(op_ne, "!=", a != b)
// assignment forms: operate on x in place
#define VT_ASG(NAME, TEXT, BIN, STMT) struct NAME { \
    using bin = BIN; \
    static const char * text(){ return TEXT; } \
    template<class T, class U> static constexpr void call(T & x, const U & b){ STMT; } \
    template<class T, class U> static i128 value(T & x, const U & b){ return value_of(STMT); } };
VT_ASG(as_add, "+=", op_add, x += b) VT_ASG(as_sub, "-=", op_sub, x -= b) VT_ASG(as_mul, "*=", op_mul, x *= b)
VT_ASG(as_div, "/=", op_div, x /= b) VT_ASG(as_mod, "%=", op_mod, x %= b)
VT_ASG(as_shl, "<<=", op_shl, x <<= b) VT_ASG(as_shr, ">>=", op_shr, x >>= b)
VT_ASG(as_and, "&=", op_and, x &= b) VT_ASG(as_or, "|=", op_or, x |= b) VT_ASG(as_xor, "^=", op_xor, x ^= b)
// unary forms; E names the type of the expression the operator is defined by
#define VT_UN(NAME, TEXT, EXPR, DEF) struct NAME { \
    static const char * text(){ return TEXT; } \
    template<class T> static constexpr auto call(T & x) { return EXPR; } \
    template<class T> static i128 value(T & x, std::true_type) { auto && r = (EXPR); return yields(r, x); } \
    template<class T> static i128 value(T & x, std::false_type) { return value_of(EXPR); } \
    template<class T> static auto def(const T & x) { return DEF; } };
VT_UN(un_neg, "neg", -x, -x) VT_UN(un_pos, "pos", +x, +x) VT_UN(un_not, "not", ~x, ~x)
VT_UN(un_preinc, "++x", ++x, x + 1) VT_UN(un_predec, "--x", --x, x - 1)
VT_UN(un_postinc, "x++", x++, x + 1) VT_UN(un_postdec, "x--", x--, x - 1)

std::string policy(const char * pp);
// R: type of the result; RB: limits of its underlying type, used to aim the operand values
void bin_row_(const char * op, const char * pp, const tdesc & T, const tdesc & U, const tdesc & R,
              i128 rl, i128 rh, unsigned rbits, eval2 f);

template<class Op, class T, class U>
i128 eval_bin(i128 t, i128 u){
    const T a = make<T>(static_cast<base<T>>(t));
    const U b = make<U>(static_cast<base<U>>(u));
    return value_of(Op::call(a, b));
}
// the value of the target after an assignment form, whether or not it failed
extern i128 after;
template<class T> struct watch {
    const T & x;
    ~watch(){ after = value_of(x); }
};
template<class Op, class T, class U>
i128 eval_asg(i128 t, i128 u){
    T a(static_cast<base<T>>(t));
    const U b = make<U>(static_cast<base<U>>(u));
    watch<T> w{a};
    return Op::value(a, b);
}
template<class Op, class T>
i128 eval_un(i128 t, i128){
    T a = make<T>(static_cast<base<T>>(t));
    watch<T> w{a};
    return Op::value(a, std::integral_constant<bool, std::is_same<Op, un_preinc>::value || std::is_same<Op, un_predec>::value>());
}
void asg_row_(const char * op, const char * pp, const tdesc & T, const tdesc & U, const tdesc & E,
              unsigned rbits, eval2 f);
void un_row_(const char * op, const char * pp, const tdesc & T, const tdesc & E, eval2 f);
// conversions of a value x of type S to D: construction, assignment over an old value, cast and implicit conversion
template<class D, class S> i128 eval_ctor(i128 x, i128){
    const S a = make<S>(static_cast<base<S>>(x));
    const D d(a);
    return value_of(d);
}
template<class D, class S> i128 eval_set(i128 x, i128 old){
    const S a = make<S>(static_cast<base<S>>(x));
    D d(static_cast<base<D>>(old));
    watch<D> w{d};
    auto && r = (d = a);
    return yields(r, d);
}
template<class D, class S> i128 eval_cast(i128 x, i128){
    const S a = make<S>(static_cast<base<S>>(x));
    return value_of(static_cast<D>(a));
}
template<class D, class S> i128 eval_imp(i128 x, i128){
    const S a = make<S>(static_cast<base<S>>(x));
    const D d = a;
    return value_of(d);
}
void conv_row_(const char * form, const char * pp, const tdesc & S, const tdesc & D, eval2 f);
template<class D, class S> void ctor(const char * pp){ conv_row_("ctor", pp, desc<S>(), desc<D>(), eval_ctor<D, S>); }
template<class D, class S> void set(const char * pp){ conv_row_("set", pp, desc<S>(), desc<D>(), eval_set<D, S>); }
template<class D, class S> void cast_(const char * pp){ conv_row_("cast", pp, desc<S>(), desc<D>(), eval_cast<D, S>); }
template<class D, class S> void imp(const char * pp){ conv_row_("imp", pp, desc<S>(), desc<D>(), eval_imp<D, S>); }

template<class Op, class T, class U>
void bin(const char * pp){
    using R = decltype(Op::call(std::declval<T const &>(), std::declval<U const &>()));
    using B = base<R>;
    bin_row_(Op::text(), pp, desc<T>(), desc<U>(), desc<R>(), lo<B>(), hi<B>(), sizeof(B) * 8, eval_bin<Op, T, U>);
}
template<class Op, class T, class U>
void asg(const char * pp){
    using E = decltype(Op::bin::call(std::declval<T const &>(), std::declval<U const &>()));
    asg_row_(Op::text(), pp, desc<T>(), desc<U>(), desc<E>(), sizeof(base<E>) * 8, eval_asg<Op, T, U>);
}
template<class Op, class T>
void un(const char * pp){
    using E = decltype(Op::def(std::declval<T const &>()));
    un_row_(Op::text(), pp, desc<T>(), desc<E>(), eval_un<Op, T>);
}

} // vt
#endif
