// Stream output and input of safe integers.
#ifndef VT_STREAMS_HPP
#define VT_STREAMS_HPP
#include <iomanip>
#include <boost/safe_numerics/range_value.hpp>
namespace vt {
template<class C> std::string codes(const std::basic_string<C> & s){
    std::string o = "[";
    for(std::size_t i = 0; i < s.size(); ++i){ if(i) o += ','; o += std::to_string((long)s[i]); }
    return o + "]";
}
template<class C> std::basic_string<C> widen(const std::string & s){ return std::basic_string<C>(s.begin(), s.end()); }
template<class T> i128 stored_value(const T & t){
    base<T> b;
    static_assert(sizeof b == sizeof t, "size of a safe type");
    std::memcpy(&b, &t, sizeof b);
    return static_cast<i128>(b);
}
outcome guarded_(void (*f)(void *), void * p);
template<class F> outcome trial(F f){
    struct g { static void call(void * p){ (*static_cast<F *>(p))(); } };
    return guarded_(&g::call, &f);
}
struct srow {
    std::string head, s;
    void add(const std::string & c){ if(!s.empty()) s += ','; s += c; if(s.size() > 20000) flush(); }
    void flush(){ if(!s.empty()) emit(head + ",\"c\":[" + s + "]}"); s.clear(); }
};
inline std::string text_of(i128 x, unsigned base = 10){
    std::string s; bool n = x < 0; unsigned __int128 m = n ? -(unsigned __int128)x : (unsigned __int128)x;
    do { s.insert(s.begin(), "0123456789abcdef"[(int)(m % base)]); m /= base; } while(m);
    return n ? "-" + s : s;
}
std::vector<std::string> texts(i128 l, i128 h, unsigned n, rng & g, unsigned base = 10);

template<class T> std::string shead(const char * k, const char * f){
    std::string h = std::string("{\"k\":\"") + k + "\",\"f\":\"" + f + "\",\"R\":";
    describe<T>(h);
    return h;
}
template<class C> void format(std::basic_ostream<C> & o, char f){
    if(f == 'd') return;
    if(f == 'x'){ o << std::hex; return; }
    if(f == 'o'){ o << std::oct; return; }
    o << std::setw(24) << std::setfill(C('*'));
    if(f == 'l') o << std::left;
    if(f == 'r') o << std::right;
    if(f == 'i') o << std::internal;
}
template<class T, class C> void sout(const char * f){
    srow r; r.head = shead<T>("sout", f);
    rng g(hash(r.head.c_str()) ^ seed);
    std::vector<i128> v = interesting(lo<T>(), hi<T>());
    for(unsigned i = 0; i < budget; ++i) v.push_back(random_in(g, lo<T>(), hi<T>()));
    for(i128 x : v){
        if(x < 0 && (*f == 'x' || *f == 'o')) continue;
        std::basic_string<C> s;
        outcome o = trial([&]{
            const T t(static_cast<base<T>>(x));
            std::basic_ostringstream<C> os;
            format(os, *f);
            os << t;
            if(*f == 't') os << C('|') << t;            // the width holds for one output only
            s = os.str();
        });
        r.add("[" + num(x) + "," + codes(s) + ",\"" + o.k + "\"]");
    }
    r.flush();
}
template<class T, class C> void sin(const char * f){
    srow r; r.head = shead<T>("sin", f);
    rng g(hash(r.head.c_str()) ^ seed);
    for(const std::string & x : texts(lo<T>(), hi<T>(), budget, g, *f == 'x' ? 16 : *f == 'o' ? 8 : 10)){
        i128 old = random_in(g, lo<T>(), hi<T>()), aft = old;
        long used = -1; int failed = 0;
        std::basic_istringstream<C> is(widen<C>(x));
        if(*f == 'e') is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        if(*f == 'x') is >> std::hex;
        if(*f == 'o') is >> std::oct;
        T t(static_cast<base<T>>(old));
        outcome o = trial([&]{ is >> t; });
        aft = stored_value(t);
        failed = is.fail();
        is.exceptions(std::ios_base::goodbit);
        is.clear();
        used = (long)is.tellg();
        r.add("[" + codes(x) + "," + num(old) + ",\"" + o.k + "\"," + num(aft) + "," + std::to_string(used) + "," + (failed ? "1" : "0") + "]");
    }
    r.flush();
}
// one stream read again and again, through failures and refused values
template<class T, class C> void seq(const char * f){
    srow r; r.head = shead<T>("seq", f);
    rng g(hash(r.head.c_str()) ^ seed);
    const std::vector<std::string> all = texts(lo<T>(), hi<T>(), budget, g);
    std::vector<std::string> good;
    for(unsigned i = 0; i < 8; ++i) good.push_back(text_of(random_in(g, lo<T>(), hi<T>())));
    for(unsigned i = 0; i < budget / 2 + 4; ++i){
        std::string x;
        for(int k = 0; k < 4; ++k) x += (g.below(3) ? good[g.below(good.size())] : all[g.below(all.size())]) + " \n\t "[g.below(4)];
        const bool broken = g.below(8) == 0;
        std::basic_istringstream<C> is(widen<C>(x));
        if(*f == 'e') is.exceptions(std::ios_base::badbit);
        if(broken) is.setstate(std::ios_base::failbit);
        std::string steps;
        for(int k = 0; k < 5; ++k){
            const i128 old = random_in(g, lo<T>(), hi<T>());
            T t(static_cast<base<T>>(old));
            const outcome o = trial([&]{ is >> t; });
            const long pos = (long)is.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
            if(k) steps += ',';
            steps += "[" + num(old) + ",\"" + o.k + "\"," + num(stored_value(t)) + "," + std::to_string(pos) + "," + (is.fail() ? "1" : "0") + "]";
        }
        r.add("[" + codes(x) + "," + (broken ? "1" : "0") + ",[" + steps + "]]");
    }
    r.flush();
}
// an interval of values of type I, which has the range of T
template<class I, class C> void ivout(){
    srow r; r.head = shead<I>("ivout", "d");
    rng g(hash(r.head.c_str()) ^ seed);
    std::vector<i128> v = interesting(lo<I>(), hi<I>());
    for(unsigned i = 0; i < budget; ++i){
        i128 a = g.below(2) ? v[g.below(v.size())] : random_in(g, lo<I>(), hi<I>()), b = g.below(2) ? v[g.below(v.size())] : random_in(g, lo<I>(), hi<I>());
        if(a > b) std::swap(a, b);
        std::basic_string<C> s;
        outcome o = trial([&]{
            const sn::interval<I> x(static_cast<I>(static_cast<base<I>>(a)), static_cast<I>(static_cast<base<I>>(b)));
            std::basic_ostringstream<C> os;
            os << x;
            s = os.str();
        });
        r.add("[" + num(a) + "," + num(b) + "," + codes(s) + ",\"" + o.k + "\"]");
    }
    r.flush();
}
// a value with its static range
template<class T, class C> void rvout(){
    srow r; r.head = shead<T>("rvout", "d");
    rng g(hash(r.head.c_str()) ^ seed);
    std::vector<i128> v = interesting(lo<T>(), hi<T>());
    for(unsigned i = 0; i < budget / 4; ++i) v.push_back(random_in(g, lo<T>(), hi<T>()));
    for(i128 a : v){
        std::basic_string<C> s;
        outcome o = trial([&]{
            const T t(static_cast<base<T>>(a));
            std::basic_ostringstream<C> os;
            os << make_range_value(t);
            s = os.str();
        });
        r.add("[" + num(a) + "," + codes(s) + ",\"" + o.k + "\"]");
    }
    r.flush();
}
// several values written one after the other and read back
template<class T, class C> void trip(){
    srow r; r.head = shead<T>("trip", "d");
    rng g(hash(r.head.c_str()) ^ seed);
    for(unsigned i = 0; i < budget / 4 + 1; ++i){
        std::vector<i128> v, w;
        std::vector<i128> in = interesting(lo<T>(), hi<T>());
        for(int k = 0; k < 4; ++k) v.push_back(g.below(2) ? in[g.below(in.size())] : random_in(g, lo<T>(), hi<T>()));
        outcome o = trial([&]{
            std::basic_stringstream<C> s;
            for(i128 x : v){ const T t(static_cast<base<T>>(x)); s << t << C(i % 2 ? ' ' : '\n'); }
            for(int k = 0; k < 4; ++k){
                T t(static_cast<base<T>>(v[3 - k]));
                s >> t;
                w.push_back(stored_value(t));
            }
        });
        auto list = [](const std::vector<i128> & a){
            std::string s = "[";
            for(std::size_t i = 0; i < a.size(); ++i){ if(i) s += ','; num(s, a[i]); }
            return s + "]";
        };
        r.add("[" + list(v) + ",\"" + o.k + "\"," + list(w) + "]");
    }
    r.flush();
}
} // vt
#endif
