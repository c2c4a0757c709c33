// The same operations as constant expressions: whether the compiler accepts them, and their value.
#ifndef VT_CX_HPP
#define VT_CX_HPP
#include "vt.hpp"
namespace vt {
// an operation with constant operands is a class with  static constexpr i128 get()
template<class F> struct accepted {
    template<class G, int = (static_cast<void>(G::get()), 0)> static std::true_type test(int);
    template<class G> static std::false_type test(...);
    using type = decltype(test<F>(0));
};
template<class F> i128 cx_value(std::true_type){ constexpr i128 v = F::get(); return v; }
template<class F> i128 cx_value(std::false_type){ return 0; }
template<class F> i128 cx_after(std::true_type){ constexpr i128 v = F::after(); return v; }
template<class F> i128 cx_after(std::false_type){ return 0; }

template<class Op, class T, class U, base<T> t, base<U> u> struct cx_bin {
    static constexpr i128 get(){ return value_of(Op::call(make<T>(t), make<U>(u))); }
};
template<class Op, class T, class U, base<T> t, base<U> u> struct cx_asg {
    static constexpr i128 get(){ T x = make<T>(t); Op::call(x, make<U>(u)); return value_of(x); }
    static constexpr i128 after(){ return get(); }
};
template<class Op, class T, base<T> t> struct cx_un {
    static constexpr i128 get(){ T x = make<T>(t); return value_of(Op::call(x)); }
    static constexpr i128 after(){ T x = make<T>(t); static_cast<void>(Op::call(x)); return value_of(x); }
};
struct f_ctor { template<class D, class S> static constexpr i128 call(const S & a){ const D d(a); return value_of(d); }
    template<class D, class S> static eval2 rt(){ return eval_ctor<D, S>; } static const char * text(){ return "ctor"; } };
struct f_imp { template<class D, class S> static constexpr i128 call(const S & a){ const D d = a; return value_of(d); }
    template<class D, class S> static eval2 rt(){ return eval_imp<D, S>; } static const char * text(){ return "imp"; } };
struct f_cast { template<class D, class S> static constexpr i128 call(const S & a){ return value_of(static_cast<D>(a)); }
    template<class D, class S> static eval2 rt(){ return eval_cast<D, S>; } static const char * text(){ return "cast"; } };
struct f_set { template<class D, class S> static constexpr i128 call(const S & a){
        D d(std::numeric_limits<D>::max()); d = a; return value_of(d); }
    template<class D, class S> static eval2 rt(){ return eval_set<D, S>; } static const char * text(){ return "set"; } };
template<class Form, class D, class S, base<S> s> struct cx_conv {
    static constexpr i128 get(){ return Form::template call<D, S>(make<S>(s)); }
};

struct cxrow {
    std::string s, head;
    explicit cxrow(const std::string & h) : head(h) {}
    void add(i128 t, i128 u, bool ok, i128 v, i128 a, const outcome & o){
        s += s.empty() ? "[" : ",[";
        num(s, t); s += ','; num(s, u); s += ok ? ",\"ok\"," : ",\"rej\","; num(s, v);
        s += ",\"-\","; num(s, a); s += ",\""; s += o.k; s += "\","; num(s, o.v); s += ','; num(s, after); s += ']';
    }
    ~cxrow(){ if(!s.empty()) emit(head + ",\"c\":[" + s + "]}"); }
};
std::string cxhead(const char * k, const char * op, const char * pp, const tdesc & T, const tdesc * U, const tdesc & R);

template<class Op, class T, class U> struct cbin : cxrow {
    using R = decltype(Op::call(std::declval<T const &>(), std::declval<U const &>()));
    static std::string h(const char * pp){ const tdesc u = desc<U>(); return cxhead("bin", Op::text(), pp, desc<T>(), &u, desc<R>()); }
    explicit cbin(const char * pp) : cxrow(h(pp)) {}
    template<base<T> t, base<U> u> void at(){
        using F = cx_bin<Op, T, U, t, u>; using A = typename accepted<F>::type;
        add(t, u, A::value, cx_value<F>(A()), 0, run(eval_bin<Op, T, U>, t, u));
    }
};
template<class Op, class T, class U> struct casg : cxrow {
    using R = decltype(Op::bin::call(std::declval<T const &>(), std::declval<U const &>()));
    static std::string h(const char * pp){ const tdesc u = desc<U>(); return cxhead("asg", Op::text(), pp, desc<T>(), &u, desc<R>()); }
    explicit casg(const char * pp) : cxrow(h(pp)) {}
    template<base<T> t, base<U> u> void at(){
        using F = cx_asg<Op, T, U, t, u>; using A = typename accepted<F>::type;
        add(t, u, A::value, cx_value<F>(A()), cx_after<F>(A()), run(eval_asg<Op, T, U>, t, u));
    }
};
template<class Op, class T> struct cun : cxrow {
    using R = decltype(Op::def(std::declval<T const &>()));
    explicit cun(const char * pp) : cxrow(cxhead("un", Op::text(), pp, desc<T>(), 0, desc<R>())) {}
    template<base<T> t> void at(){
        using F = cx_un<Op, T, t>; using A = typename accepted<F>::type;
        add(t, 0, A::value, cx_value<F>(A()), cx_after<F>(A()), run(eval_un<Op, T>, t, 0));
    }
};
template<class Form, class D, class S> struct cconv : cxrow {
    explicit cconv(const char * pp) : cxrow(cxhead("conv", Form::text(), pp, desc<S>(), 0, desc<D>())) {}
    template<base<S> s> void at(){
        using F = cx_conv<Form, D, S, s>; using A = typename accepted<F>::type;
        add(s, 0, A::value, cx_value<F>(A()), cx_value<F>(A()), run(Form::template rt<D, S>(), s, hi<D>()));
    }
};
} // vt
#endif
