// Recorders for the building blocks: checked:: primitives, operators on checked_result, interval
// arithmetic, bit utilities and safe_compare.
#ifndef VT_PRIMS_HPP
#define VT_PRIMS_HPP
#include "vt.hpp"
namespace vt {

// an outcome of a checked_result
template<class R> outcome of(const sn::checked_result<R> & r){
    if(r.exception()) return outcome{code(r.m_e), '-', 0};
    return outcome{"ok", '-', static_cast<i128>(static_cast<R>(r))};
}
// evaluate f() -> checked_result under the signal guard
template<class F> outcome guarded(F f){
    static F * g; static outcome res;
    F h = f; g = &h;
    outcome o = run([](i128, i128) -> i128 { res = (*g)(); return 0; }, 0, 0);
    return std::strcmp(o.k, "ok") == 0 ? res : o;
}

inline std::string head1(const char * kind, const char * op, const std::string & d){
    return std::string("{\"k\":\"") + kind + "\",\"op\":\"" + op + "\",\"R\":" + d;
}
template<class R> std::string dstr(){ std::string s; describe<R>(s); return s; }

#define VT_PRIM(NAME, TEXT, FN) struct NAME { static const char * text(){ return TEXT; } \
    template<class R> static sn::checked_result<R> call(const R & a, const R & b){ return sn::checked::FN; } };
VT_PRIM(pr_add, "+", add<R>(a, b)) VT_PRIM(pr_sub, "-", subtract<R>(a, b)) VT_PRIM(pr_mul, "*", multiply<R>(a, b))
VT_PRIM(pr_div, "/", divide<R>(a, b)) VT_PRIM(pr_mod, "%", modulus<R>(a, b)) VT_PRIM(pr_neg, "neg", minus<R>(a))
VT_PRIM(pr_shl, "<<", left_shift<R>(a, b)) VT_PRIM(pr_shr, ">>", right_shift<R>(a, b))
VT_PRIM(pr_and, "&", bitwise_and<R>(a, b)) VT_PRIM(pr_or, "|", bitwise_or<R>(a, b)) VT_PRIM(pr_xor, "^", bitwise_xor<R>(a, b))
VT_PRIM(pr_not, "not", bitwise_not<R>(a))

template<class Op, class R>
void prim_pair(row & r, i128 a, i128 b){
    r.add(a, b, guarded([=]() -> outcome { return of<R>(Op::template call<R>(R(a), R(b))); }));
}
// boundary-aimed and random operands
template<class Op, class R>
void prim(){
    row r; r.begin(head1("prim", Op::text(), dstr<R>()));
    rng g(hash(r.head.c_str()) ^ seed);
    std::string op = Op::text();
    if(op == "neg" || op == "not"){
        std::vector<i128> v = interesting(lo<R>(), hi<R>());
        for(unsigned i = 0; i < budget; ++i) v.push_back(random_in(g, lo<R>(), hi<R>()));
        for(i128 a : v) prim_pair<Op, R>(r, a, 0);
    } else {
        for(auto & p : pairs(op, lo<R>(), hi<R>(), lo<R>(), hi<R>(), lo<R>(), hi<R>(), sizeof(R) * 8, budget, g))
            prim_pair<Op, R>(r, p.t, p.u);
    }
    r.flush();
}
// every pair (a, b) with a = a0, a0 + step, ...
template<class Op, class R>
void prim_all(int a0, int step){
    row r; r.begin(head1("prim", Op::text(), dstr<R>()));
    std::string op = Op::text();
    for(i128 a = lo<R>() + a0; a <= hi<R>(); a += step){
        if(op == "neg" || op == "not"){ prim_pair<Op, R>(r, a, 0); continue; }
        for(i128 b = lo<R>(); b <= hi<R>(); ++b) prim_pair<Op, R>(r, a, b);
    }
    r.flush();
}
// checked::cast<R>(T)
template<class R, class T>
void cast(){
    row r;
    std::string h = std::string("{\"k\":\"cast\",\"T\":") + dstr<T>() + ",\"R\":" + dstr<R>();
    r.begin(h);
    rng g(hash(h.c_str()) ^ seed);
    std::vector<i128> v = interesting(lo<T>(), hi<T>());
    for(i128 d = -2; d <= 2; ++d) for(i128 e : {lo<R>(), hi<R>()})
        if(e + d >= lo<T>() && e + d <= hi<T>()) v.push_back(e + d);
    for(unsigned i = 0; i < budget / 2; ++i) v.push_back(random_in(g, lo<T>(), hi<T>()));
    for(i128 a : v)
        r.add(a, 0, guarded([=]() -> outcome { return of<R>(sn::checked::cast<R>(T(a))); }));
    r.flush();
}

// ---------------------------------------------------------------- extended integers
struct ext { sn::safe_numerics_error e; i128 v; };
template<class T> sn::checked_result<T> mk(const ext & x){
    return x.e == sn::safe_numerics_error::success ? sn::checked_result<T>(static_cast<T>(x.v)) : sn::checked_result<T>(x.e, "m");
}
inline outcome tri(boost::logic::tribool b){
    return outcome{boost::logic::indeterminate(b) ? "indet" : b ? "true" : "false", '-', 0};
}
#define VT_EXT(NAME, TEXT, EXPR, CONV) struct NAME { static const char * text(){ return TEXT; } \
    template<class T> static outcome call(const sn::checked_result<T> & a, const sn::checked_result<T> & b){ return CONV(EXPR); } };
VT_EXT(ex_add, "+", a + b, of<T>) VT_EXT(ex_sub, "-", a - b, of<T>) VT_EXT(ex_mul, "*", a * b, of<T>)
VT_EXT(ex_div, "/", a / b, of<T>) VT_EXT(ex_mod, "%", a % b, of<T>) VT_EXT(ex_neg, "neg", -a, of<T>)
VT_EXT(ex_shl, "<<", a << b, of<T>) VT_EXT(ex_shr, ">>", a >> b, of<T>)
VT_EXT(ex_and, "&", a & b, of<T>) VT_EXT(ex_or, "|", a | b, of<T>) VT_EXT(ex_xor, "^", a ^ b, of<T>)
VT_EXT(ex_not, "not", ~a, of<T>)
VT_EXT(ex_lt, "<", a < b, tri) VT_EXT(ex_le, "<=", a <= b, tri) VT_EXT(ex_gt, ">", a > b, tri)
VT_EXT(ex_ge, ">=", a >= b, tri) VT_EXT(ex_eq, "==", a == b, tri) VT_EXT(ex_ne, "!=", a != b, tri)

struct ext_row : row {
    void add(const ext & a, const ext & b, const outcome & o){
        s += n++ ? ",[\"" : "[\"";
        s += code(a.e); s += "\","; num(s, a.v); s += ",\""; s += code(b.e); s += "\","; num(s, b.v);
        s += ",\""; s += o.k; s += "\","; num(s, o.v); s += ']';
        if(n >= 150) flush();
    }
};
// one state per error code
inline std::vector<ext> ext_states(){
    using E = sn::safe_numerics_error;
    std::vector<ext> v;
    for(E e : {E::positive_overflow_error, E::negative_overflow_error, E::domain_error, E::range_error,
               E::precision_overflow_error, E::underflow_error, E::negative_value_shift, E::negative_shift,
               E::shift_too_large, E::uninitialized_value}) v.push_back(ext{e, 0});
    return v;
}
template<class Op, class T>
void ext_pair(ext_row & r, const ext & a, const ext & b){
    r.add(a, b, guarded([=]() -> outcome { return Op::template call<T>(mk<T>(a), mk<T>(b)); }));
}
template<class Op, class T>
void extop(){
    ext_row r; r.begin(head1("ext", Op::text(), dstr<T>()));
    rng g(hash(r.head.c_str()) ^ seed);
    std::string op = Op::text();
    // error states against each other and against values
    std::vector<ext> es = ext_states(), vs;
    for(i128 x : interesting(lo<T>(), hi<T>())) vs.push_back(ext{sn::safe_numerics_error::success, x});
    for(int i = 0; i < 6; ++i) vs.push_back(ext{sn::safe_numerics_error::success, random_in(g, lo<T>(), hi<T>())});
    for(auto & a : es) for(auto & b : es) ext_pair<Op, T>(r, a, b);
    for(auto & a : es) for(auto & b : vs){ ext_pair<Op, T>(r, a, b); ext_pair<Op, T>(r, b, a); }
    for(auto & p : pairs(op, lo<T>(), hi<T>(), lo<T>(), hi<T>(), lo<T>(), hi<T>(), sizeof(T) * 8, budget, g))
        ext_pair<Op, T>(r, ext{sn::safe_numerics_error::success, p.t}, ext{sn::safe_numerics_error::success, p.u});
    if(op == "<<" || op == ">>")
        for(int i = 0; i < (int)budget; ++i){
            i128 n = (i128)g.below(sizeof(T) * 8 + 3) * (std::is_signed<T>::value && g.below(2) ? -1 : 1);
            ext_pair<Op, T>(r, ext{sn::safe_numerics_error::success, random_in(g, lo<T>(), hi<T>())},
                            ext{sn::safe_numerics_error::success, n});
        }
    r.flush();
}
template<class Op, class T>
void extop_all(int a0, int step){
    ext_row r; r.begin(head1("ext", Op::text(), dstr<T>()));
    for(i128 a = lo<T>() + a0; a <= hi<T>(); a += step) for(i128 b = lo<T>(); b <= hi<T>(); ++b)
        ext_pair<Op, T>(r, ext{sn::safe_numerics_error::success, a}, ext{sn::safe_numerics_error::success, b});
    r.flush();
}

// ---------------------------------------------------------------- intervals
struct ivl { i128 l, u; };
struct ivl_row : row {
    void open(const ivl & a, const ivl & b){
        s += n++ ? ",[" : "[";
        num(s, a.l); s += ','; num(s, a.u); s += ','; num(s, b.l); s += ','; num(s, b.u);
    }
    void add(const ivl & a, const ivl & b, const outcome & l, const outcome & u){
        open(a, b);
        s += ",\""; s += l.k; s += "\","; num(s, l.v); s += ",\""; s += u.k; s += "\","; num(s, u.v); s += ']';
        if(n >= 150) flush();
    }
};
template<class T> outcome bound(const T & x){ return outcome{"ok", '-', static_cast<i128>(x)}; }
template<class T> outcome bound(const sn::checked_result<T> & x){ return of<T>(x); }

#define VT_IVL(NAME, TEXT, EXPR) struct NAME { static const char * text(){ return TEXT; } \
    template<class I> static I call(const I & a, const I & b){ return EXPR; } };
VT_IVL(iv_add, "+", a + b) VT_IVL(iv_sub, "-", a - b) VT_IVL(iv_mul, "*", a * b) VT_IVL(iv_div, "/", a / b)
VT_IVL(iv_mod, "%", a % b) VT_IVL(iv_shl, "<<", a << b) VT_IVL(iv_shr, ">>", a >> b)
VT_IVL(iv_or, "|", a | b) VT_IVL(iv_and, "&", a & b)
#define VT_IVP(NAME, TEXT, EXPR) struct NAME { static const char * text(){ return TEXT; } \
    template<class I> static outcome call(const I & a, const I & b){ return tri(boost::logic::tribool(EXPR)); } };
VT_IVP(ip_lt, "<", a < b) VT_IVP(ip_gt, ">", a > b) VT_IVP(ip_le, "<=", a <= b) VT_IVP(ip_ge, ">=", a >= b)
VT_IVP(ip_eq, "==", a == b) VT_IVP(ip_ne, "!=", a != b) VT_IVP(ip_int, "intersect", sn::intersect(a, b))
VT_IVP(ip_inc, "includes", a.includes(b)) VT_IVP(ip_exc, "excludes", a.excludes(b))
VT_IVP(ip_incp, "includes_point", a.includes(b.l)) VT_IVP(ip_excp, "excludes_point", a.excludes(b.l))

// operand intervals: divisors exclude zero; for plain bound types no operation on the ends overflows
inline std::vector<std::pair<ivl, ivl>> ivl_pairs(const std::string & op, i128 l, i128 h, unsigned bits, unsigned n,
                                                  rng & g, bool checked){
    std::vector<std::pair<ivl, ivl>> r;
    std::vector<i128> pts = interesting(l, h);
    auto pt = [&](i128 a, i128 b) -> i128 {
        for(int i = 0; i < 6 && g.below(2); ++i){ i128 x = pts[g.below(pts.size())]; if(x >= a && x <= b) return x; }
        if(g.below(2)){ i128 x = (i128)g.below(20) - (l < 0 ? 10 : 0); if(x >= a && x <= b) return x; }
        return random_in(g, a, b);
    };
    auto some = [&](i128 a, i128 b){ i128 x = pt(a, b), y = pt(a, b); return x < y ? ivl{x, y} : ivl{y, x}; };
    const bool shift = op == "<<" || op == ">>", div = op == "/" || op == "%";
    auto in = [&](i128 x){ return x >= l && x <= h; };
    for(unsigned i = 0; r.size() < n && i < n * 40; ++i){
        ivl a = some(l, h), b = some(l, h);
        if(g.below(6) == 0) b = a;
        if(g.below(6) == 0 && a.u < h) b = ivl{a.u, h};
        if(g.below(8) == 0 && a.u < h) b = ivl{a.u + 1, h};
        if(div && (b.l <= 0 && b.u >= 0)){ if(b.u > 0) b.l = 1; else if(b.l < 0) b.u = -1; else continue; }
        if(shift && (!checked || g.below(2))) b = some(checked && l < 0 ? -(i128)bits - 1 : 0, checked ? bits + 1 : bits - 1);
        if(shift && !checked && a.l < 0) a = some(0, h);
        if(!checked){
            if(!shift && op != "%" && op != "/" && g.below(2)){ a = some(l / 64, h / 64); b = some(l / 64, h / 64); }
            if(op == "*" && g.below(2)) b = some(l < 0 ? -60 : 0, 60);
            if(op == "<<" && g.below(3)){ a = some(0, 200); b = some(0, bits - 10); }
            bool ok = true;
            for(i128 x : {a.l, a.u}) for(i128 y : {b.l, b.u}){
                if(op == "+") ok &= in(x + y);
                if(op == "-") ok &= in(x - y);
                if(op == "*") ok &= in(x * y);
                if(op == "/") ok &= in(x / y);
                if(op == "<<") ok &= y < (i128)bits && x <= (h >> (int)y);
            }
            if(!ok) continue;
        }
        r.push_back(std::make_pair(a, b));
    }
    return r;
}

// W: int-like bound type (plain) or checked_result<T>
template<class Op, class T, class B>
void ivl_op(bool checked){
    ivl_row r;
    r.begin(head1("ivl", Op::text(), dstr<T>()) + ",\"ck\":" + (checked ? "1" : "0"));
    rng g(hash(r.head.c_str()) ^ seed);
    for(auto & p : ivl_pairs(Op::text(), lo<T>(), hi<T>(), sizeof(T) * 8, budget, g, checked)){
        const ivl a = p.first, b = p.second;
        static outcome l, u;
        outcome o = guarded([=]() -> outcome {
            const sn::interval<B> x{B(T(a.l)), B(T(a.u))}, y{B(T(b.l)), B(T(b.u))};
            const sn::interval<B> z = Op::template call<sn::interval<B>>(x, y);
            l = bound(z.l); u = bound(z.u);
            return outcome{"ok", '-', 0};
        });
        if(std::strcmp(o.k, "ok")) r.add(a, b, o, o); else r.add(a, b, l, u);
    }
    r.flush();
}
template<class Op, class T, class B>
void ivl_pred(bool checked){
    ivl_row r;
    r.begin(head1("ivp", Op::text(), dstr<T>()) + ",\"ck\":" + (checked ? "1" : "0"));
    rng g(hash(r.head.c_str()) ^ seed);
    for(auto & p : ivl_pairs(Op::text(), lo<T>(), hi<T>(), sizeof(T) * 8, budget, g, checked)){
        const ivl a = p.first, b = p.second;
        outcome o = guarded([=]() -> outcome {
            const sn::interval<B> x{B(T(a.l)), B(T(a.u))}, y{B(T(b.l)), B(T(b.u))};
            return Op::template call<sn::interval<B>>(x, y);
        });
        r.add(a, b, o, outcome{"-", '-', 0});
    }
    r.flush();
}

// ---------------------------------------------------------------- mixed comparisons and bit utilities
#define VT_SC(NAME, TEXT, FN) struct NAME { static const char * text(){ return TEXT; } \
    template<class T, class U> static bool call(const T & a, const U & b){ return sn::safe_compare::FN(a, b); } };
VT_SC(sc_lt, "<", less_than) VT_SC(sc_gt, ">", greater_than) VT_SC(sc_le, "<=", less_than_equal)
VT_SC(sc_ge, ">=", greater_than_equal) VT_SC(sc_eq, "==", equal) VT_SC(sc_ne, "!=", not_equal)
template<class Op, class T, class U>
void scmp(){
    row r;
    r.begin(std::string("{\"k\":\"scmp\",\"op\":\"") + Op::text() + "\",\"T\":" + dstr<T>() + ",\"U\":" + dstr<U>());
    rng g(hash(r.head.c_str()) ^ seed);
    for(auto & p : pairs(Op::text(), lo<T>(), hi<T>(), lo<U>(), hi<U>(), 0, 1, 8, budget, g)){
        i128 t = p.t, u = p.u;
        r.add(t, u, guarded([=]() -> outcome { return outcome{"ok", '-', Op::call(T(t), U(u))}; }));
    }
    r.flush();
}
template<class T>
void bits1(const char * fn, i128 (*f)(T)){
    row r; r.begin(head1("util", fn, dstr<T>()));
    rng g(hash(r.head.c_str()) ^ seed);
    std::vector<i128> v = interesting(lo<T>(), hi<T>());
    for(int b = 0; b < (int)sizeof(T) * 8; ++b) for(i128 d = -1; d <= 1; ++d) for(int s = -1; s <= 1; s += 2){
        i128 x = (((i128)1 << b) + d) * s;
        if(x >= lo<T>() && x <= hi<T>()) v.push_back(x);
    }
    for(unsigned i = 0; i < budget; ++i) v.push_back(random_in(g, lo<T>(), hi<T>()));
    for(i128 a : v){
        if(a <= 0 && !std::strcmp(fn, "ilog2")) continue;     // defined for positive values
        r.add(a, 0, guarded([=]() -> outcome { return outcome{"ok", '-', f(T(a))}; }));
    }
    r.flush();
}
template<class T> void utils(){
    bits1<T>("significant_bits", [](T x) -> i128 { return sn::utility::significant_bits(x); });
    bits1<T>("ilog2", [](T x) -> i128 { return sn::utility::ilog2(x); });
    bits1<T>("round_out", [](T x) -> i128 { return sn::utility::round_out(x); });
    bits1<T>("bits_type", [](T) -> i128 { return sn::utility::bits_type<T>::value; });
}
// the type selected to store lo .. hi
template<class R> void stored(bool sgn, i128 l, i128 h){
    row r; r.begin(std::string("{\"k\":\"stored\",\"op\":\"stored\",\"s\":") + (sgn ? "1" : "0") + ",\"R\":" + dstr<R>());
    r.add(l, h, outcome{"ok", '-', 0});
    r.flush();
}
template<class T> void picks(){
    for(int k = 0; k < 3; ++k){
        row r; r.begin(head1("pick", k == 1 ? "min" : "max", dstr<T>()));
        rng g(hash(r.head.c_str()) ^ seed);
        for(unsigned i = 0; i < budget; ++i){
            i128 a = random_in(g, lo<T>(), hi<T>()), b = random_in(g, lo<T>(), hi<T>());
            r.add(a, b, guarded([=]() -> outcome {
                if(k == 0) return outcome{"ok", '-', (i128)sn::utility::max(T(a), T(b))};
                auto p = sn::utility::minmax<T>(std::initializer_list<T>{T(b), T(a), T(b)});
                return outcome{"ok", '-', (i128)(k == 1 ? p.first : p.second)};
            }));
        }
        r.flush();
    }
}
} // vt
#endif
