// Which handler hears of which error.
#ifndef VT_DISPATCH_HPP
#define VT_DISPATCH_HPP
#include <system_error>
#include "vt_streams.hpp"
namespace vt {
struct call { char h; sn::safe_numerics_error e; bool text; };
extern std::vector<call> calls;
template<char H> struct log_error {
    constexpr log_error() = default;
    void operator()(const sn::safe_numerics_error & e, const char * m){
        if(calls.size() < 20) calls.push_back(call{H, e, m && *m});
    }
};
using logging = sn::exception_policy<log_error<'a'>, log_error<'i'>, log_error<'u'>, log_error<'v'>>;
inline std::string log_list(){
    std::string s = "[";
    for(auto & c : calls){
        if(s.size() > 1) s += ',';
        s += std::string("[\"") + (c.text ? c.h : '0') + "\",\"" + code(c.e) + "\"]";
    }
    return s + "]";
}
inline int code_of(const std::error_code & e){
    return e.category() == sn::make_error_code(sn::safe_numerics_error::success).category() ? e.value() : -1;
}
// runs f, says what came out: "ok", "crash", or "throw" and the code thrown
struct result { std::string k; std::string c; };
template<class F> result attempt(F f){
    calls.clear();
    result r{"", "ok"};
    outcome o = trial([&]{
        try { f(); }
        catch(const std::system_error & x){
            r.k = "throw";
            int v = code_of(x.code());
            r.c = v < 0 ? "foreign" : code(static_cast<sn::safe_numerics_error>(v));
            if(!*x.what()) r.c = "no message";
        }
    });
    if(r.k.empty()) r.k = o.k;
    return r;
}
inline std::string q(const std::string & s){ return "\"" + s + "\""; }
std::string rhead(const char * k, const char * op, const char * p, const char * pp, const tdesc & T, const tdesc * U, const tdesc & R);

// p "log": record [t, u, outcome, log]; otherwise [t, u, outcome, code]
inline std::string rec(const char * p, i128 t, i128 u, const result & r){
    return "[" + num(t) + "," + num(u) + "," + q(r.k) + "," + (!std::strcmp(p, "log") ? log_list() : q(r.c)) + "]";
}
void pair_rows(const std::string & head, const char * p, const char * op, const tdesc & T, const tdesc & U, i128 rl, i128 rh, unsigned bits, eval2 f);
void value_rows(const std::string & head, const char * p, const tdesc & T, const tdesc * D, eval2 f);

template<class Op, class T, class U> i128 quiet_bin(i128 t, i128 u){
    const T a(static_cast<base<T>>(t)); const U b(static_cast<base<U>>(u));
    calls.clear();
    Op::call(a, b);
    return 0;
}
template<class Op, class T, class U> i128 quiet_asg(i128 t, i128 u){
    T a(static_cast<base<T>>(t)); const U b(static_cast<base<U>>(u));
    calls.clear();
    Op::call(a, b);
    return 0;
}
template<class Op, class T> i128 quiet_un(i128 t, i128){
    T a(static_cast<base<T>>(t));
    calls.clear();
    Op::call(a);
    return 0;
}
template<class D, class S> i128 quiet_ctor(i128 t, i128){
    const S a(static_cast<base<S>>(t));
    calls.clear();
    const D d(a); (void)d;
    return 0;
}
template<class D, class S> i128 quiet_set(i128 t, i128){
    const S a(static_cast<base<S>>(t));
    D d(static_cast<base<D>>(lo<D>()));
    calls.clear();
    d = a;
    return 0;
}
template<class D, class S> i128 quiet_cast(i128 t, i128){
    const S a(static_cast<base<S>>(t));
    calls.clear();
    volatile D d = static_cast<D>(a); (void)d;
    return 0;
}
template<class Op, class T, class U> void dbin(const char * p, const char * pp){
    using R = decltype(Op::call(std::declval<T const &>(), std::declval<U const &>()));
    using B = base<R>;
    tdesc u = desc<U>();
    pair_rows(rhead(!std::strcmp(p, "log") ? "lbin" : "pbin", Op::text(), p, pp, desc<T>(), &u, desc<R>()), p, Op::text(),
              desc<T>(), u, lo<B>(), hi<B>(), sizeof(B) * 8, quiet_bin<Op, T, U>);
}
template<class Op, class T, class U> void dasg(const char * p, const char * pp){
    using E = decltype(Op::bin::call(std::declval<T const &>(), std::declval<U const &>()));
    tdesc u = desc<U>();
    pair_rows(rhead("lasg", Op::text(), p, pp, desc<T>(), &u, desc<E>()), p, Op::text(),
              desc<T>(), u, lo<T>(), hi<T>(), sizeof(base<E>) * 8, quiet_asg<Op, T, U>);
}
template<class Op, class T> void dun(const char * p, const char * pp){
    using E = decltype(Op::def(std::declval<T const &>()));
    value_rows(rhead("lun", Op::text(), p, pp, desc<T>(), 0, desc<E>()), p, desc<T>(), 0, quiet_un<Op, T>);
}
template<class D, class S> void dconv(const char * form, const char * p, const char * pp){
    tdesc d = desc<D>();
    value_rows(rhead(!std::strcmp(p, "log") ? "lconv" : "pconv", form, p, pp, desc<S>(), 0, d), p, desc<S>(), &d,
        quiet_ctor<D, S>);
}
template<class D, class S> void dset(const char * p, const char * pp){
    tdesc d = desc<D>();
    value_rows(rhead(!std::strcmp(p, "log") ? "lconv" : "pconv", "set", p, pp, desc<S>(), 0, d), p, desc<S>(), &d,
        quiet_set<D, S>);
}
template<class D, class S> void dcast(const char * p, const char * pp){
    tdesc d = desc<D>();
    value_rows(rhead(!std::strcmp(p, "log") ? "lconv" : "pconv", "cast", p, pp, desc<S>(), 0, d), p, desc<S>(), &d,
        quiet_cast<D, S>);
}
template<class T> void din(){
    srow r; r.head = shead<T>("lin", "d");
    rng g(hash(r.head.c_str()) ^ seed);
    for(const std::string & x : texts(lo<T>(), hi<T>(), budget, g)){
        i128 old = random_in(g, lo<T>(), hi<T>());
        T t(static_cast<base<T>>(old));
        std::istringstream is(x);
        result o = attempt([&]{ is >> t; });
        std::string l = log_list();
        r.add("[" + codes(x) + "," + num(old) + "," + q(o.k) + "," + l + "," + num(stored_value(t)) + "]");
    }
    r.flush();
}
#define VT_EACH_CODE(X) X(positive_overflow_error) X(negative_overflow_error) X(domain_error) X(range_error) \
    X(precision_overflow_error) X(underflow_error) X(negative_value_shift) X(negative_shift) X(shift_too_large) X(uninitialized_value)
template<class P> void disp(const char * p){
    srow r; r.head = std::string("{\"k\":\"disp\",\"p\":\"") + p + "\"";
#define VT_D(E) { result o = attempt([]{ sn::dispatch<P, sn::safe_numerics_error::E>("text"); }); \
    r.add("[" + q(code(sn::safe_numerics_error::E)) + "," + q(o.k) + "," + q(o.c) + "," + log_list() + "]"); }
    VT_EACH_CODE(VT_D)
    r.flush();
}
template<class P> void disp_ignored(const char * p){        // a trap policy compiles for what it ignores
    srow r; r.head = std::string("{\"k\":\"disp\",\"p\":\"") + p + "\"";
    VT_D(negative_value_shift) VT_D(negative_shift) VT_D(shift_too_large) VT_D(uninitialized_value)
    r.flush();
}
template<class T> void dflt(const char * p){
    srow r; r.head = std::string("{\"k\":\"dflt\",\"p\":\"") + p + "\"";
    result o = attempt([]{ T t; (void)t; });
    r.add("[" + q(o.k) + "," + log_list() + "]");
    r.flush();
}
} // vt
std::error_code other_code(int);
const std::error_category & other_category();
#endif
