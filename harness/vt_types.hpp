// What safe types and literals say about themselves.
#ifndef VT_TYPES_HPP
#define VT_TYPES_HPP
#include "vt.hpp"
#include <boost/safe_numerics/concept/numeric.hpp>
#include <boost/safe_numerics/concept/integer.hpp>
namespace vt {
template<class T> std::string shown(const T & t){ std::ostringstream o; o << t; return o.str(); }
inline std::string field(const char * n, i128 x){ return std::string(",\"") + n + "\":" + num(x); }
inline std::string ints(const char * n, long x){ return std::string(",\"") + n + "\":" + std::to_string(x); }
inline std::string strs(const char * n, const std::string & x){ return std::string(",\"") + n + "\":\"" + x + "\""; }

// ---------------------------------------------------------------- literals
// L is to denote v
template<class L> struct lit {
    std::string s, c;
    lit(const char * form, int sg, i128 v){
        s = std::string("{\"k\":\"lit\"") + strs("op", form) + ints("sg", sg) + field("v", v) + ",\"R\":";
        describe<L>(s);
        s += field("lowest", value_of(std::numeric_limits<L>::lowest())) + field("base", (i128)sn::base_value(L())) ;
        s += ",\"o\":[";
        bool first = true;
        for(char ch : shown(L())){ if(!first) s += ','; first = false; s += std::to_string((int)ch); }
        s += "]";
    }
    template<class D> void get(){
        c += c.empty() ? "[" : ",[";
        const tdesc d = desc<D>();
        c += num(d.lo) + "," + num(d.hi) + ",";
        const L x; const D y = x;
        c += num((i128)y) + "," + num((i128)static_cast<D>(x)) + "]";
    }
    template<class D> void neg(){ u<decltype(-D())>("neg"); }
    template<class D> void pos(){ u<decltype(+D())>("pos"); }
    template<class D> void inv(){ u<decltype(~D())>("not"); }
    std::string us;
    template<class R> void u(const char * op){
        us += us.empty() ? "" : ",";
        us += std::string("{\"op\":\"") + op + "\",\"R\":"; describe<R>(us); us += "}";
    }
    ~lit(){ emit(s + ",\"u\":[" + us + "],\"c\":[" + c + "]}"); }
};

// ---------------------------------------------------------------- numeric_limits and friends
// S was declared with underlying type B and limits lo..hi
template<class S, class B> void traits(const char * form, i128 l, i128 h, const char * pp){
    using N = std::numeric_limits<S>; using M = std::numeric_limits<B>;
    std::string s = std::string("{\"k\":\"traits\"") + strs("op", form) + field("l", l) + field("h", h) + ",\"B\":";
    describe<B>(s);
    s += ",\"R\":"; describe<S>(s);
    s += field("min", value_of(N::min())) + field("max", value_of(N::max())) + field("lowest", value_of(N::lowest()));
    s += ints("digits", N::digits) + ints("digits10", N::digits10) + ints("radix", N::radix);
    s += ints("is_specialized", N::is_specialized) + ints("is_signed", N::is_signed) + ints("is_integer", N::is_integer)
        + ints("is_exact", N::is_exact) + ints("is_bounded", N::is_bounded);
    bool same = N::is_modulo == M::is_modulo && N::max_digits10 == M::max_digits10 && N::has_infinity == M::has_infinity
        && N::has_quiet_NaN == M::has_quiet_NaN && N::has_signaling_NaN == M::has_signaling_NaN && N::is_iec559 == M::is_iec559
        && N::traps == M::traps && N::tinyness_before == M::tinyness_before && N::round_style == M::round_style
        && N::min_exponent == M::min_exponent && N::max_exponent == M::max_exponent && N::has_denorm == M::has_denorm;
    s += ints("same", same);
    using SB = typename std::remove_cv<decltype(N::min())>::type;
    s += ints("limits_type", std::is_same<SB, S>::value);
    s += ints("size", sizeof(S)) + ints("align", alignof(S) == alignof(B)) + ints("array", sizeof(S[5]) == 5 * sizeof(B));
    s += ints("base", std::is_same<typename sn::base_type<S>::type, B>::value) + ints("is_safe", sn::is_safe<S>::value && !sn::is_safe<B>::value);
    s += ints("numeric", sn::Numeric<S>() && sn::Numeric<B>()) + ints("integer", sn::Integer<S>() && sn::Integer<B>());
    struct none {};
    s += ints("notnum", !sn::Numeric<none>() && !sn::Integer<double>() && sn::Numeric<double>() && !sn::Integer<std::string>() && !sn::is_safe<none>::value);
    s += ints("trivial", std::is_trivially_copyable<S>::value && std::is_standard_layout<S>::value);
    const bool p = std::is_same<typename sn::get_promotion_policy<B>::type, void>::value && std::is_same<typename sn::get_exception_policy<B>::type, void>::value;
    s += ints("novoid", p);
    emit(s + strs("p", pp) + "}");
}
template<class S, class P, class E> void policies(const char * form){
    emit(std::string("{\"k\":\"pol\"") + strs("op", form)
        + ints("p", std::is_same<typename sn::get_promotion_policy<S>::type, P>::value)
        + ints("e", std::is_same<typename sn::get_exception_policy<S>::type, E>::value) + "}");
}
} // vt
#endif
