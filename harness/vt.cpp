#include "vt.hpp"
#include <sys/time.h>
namespace vt {
static sigjmp_buf trap_buf;
static volatile sig_atomic_t trap_armed = 0;
static volatile unsigned long serial = 0;          // number of the evaluation in progress
static volatile unsigned long watched = 0, seen = 0, hangs = 0;
static void on_signal(int s){
    if(trap_armed) siglongjmp(trap_buf, 1);
    std::signal(s, SIG_DFL); std::raise(s);
}
static void set_watch(long ms){
    struct itimerval t; std::memset(&t, 0, sizeof t);
    t.it_interval.tv_sec = t.it_value.tv_sec = ms / 1000;
    t.it_interval.tv_usec = t.it_value.tv_usec = ms % 1000 * 1000;
    setitimer(ITIMER_VIRTUAL, &t, 0);
}
// an evaluation which spends seconds of processor time on an arithmetic operation won't come back
static void on_tick(int){
    if(!trap_armed || serial != watched){ watched = serial; seen = 0; return; }
    if(++seen < 3) return;
    seen = 0;
    if(++hangs == 4) set_watch(30);
    siglongjmp(trap_buf, 2);
}
void install_traps(){
    static char stack[1 << 16];
    stack_t st; std::memset(&st, 0, sizeof st);
    st.ss_sp = stack; st.ss_size = sizeof stack;
    sigaltstack(&st, 0);
    struct sigaction a; std::memset(&a, 0, sizeof a);
    a.sa_handler = on_signal; a.sa_flags = SA_NODEFER | SA_ONSTACK;
    for(int s : {SIGFPE, SIGILL, SIGABRT, SIGSEGV, SIGTRAP, SIGBUS}) sigaction(s, &a, 0);
    a.sa_handler = on_tick; a.sa_flags = SA_NODEFER | SA_ONSTACK | SA_RESTART;
    sigaction(SIGVTALRM, &a, 0);
    set_watch(1000);
}
outcome run(eval2 f, i128 t, i128 u){
    outcome o{"crash", '-', 0};
    ++serial;
    int how = sigsetjmp(trap_buf, 0);
    if(how == 0){
        trap_armed = 1;
        try { i128 v = f(t, u); o = outcome{"ok", '-', v}; }
        catch(const thrown & x){ o = outcome{code(x.e), x.h, 0}; }
        catch(const std::system_error &){ o = outcome{"system_error", '-', 0}; }
        catch(...){ o = outcome{"other_exception", '-', 0}; }
    }
    else if(how == 2) o = outcome{"hang", '-', 0};
    trap_armed = 0;
    return o;
}
void describe(std::string & o, const tdesc & d){
    o += "{\"n\":\""; o += d.n;
    o += "\",\"s\":"; o += d.s ? "1" : "0";
    o += ",\"b\":"; o += std::to_string(d.b);
    o += ",\"sf\":"; o += d.sf ? "1" : "0";
    o += ",\"lo\":"; num(o, d.lo);
    o += ",\"hi\":"; num(o, d.hi);
    o += '}';
}
// "n", "a" or "c8-16-32-64-64"
std::string policy(const char * pp){
    if(pp[0] != 'c') return std::string("\"pp\":\"") + pp + "\"";
    std::string w(pp + 1);
    std::replace(w.begin(), w.end(), '-', ',');
    return "\"pp\":\"c\",\"w\":[" + w + "]";
}
void row::add(i128 t, i128 u, const outcome & o, const i128 * after){
    s += n++ ? ",[" : "[";
    num(s, t); s += ','; num(s, u); s += ",\""; s += o.k; s += "\","; num(s, o.v);
    s += ",\""; s += o.h; s += '"';
    if(after){ s += ','; num(s, *after); }
    s += ']';
    if(n >= 150) flush();
}
void row::flush(){
    if(n) emit(head + ",\"c\":[" + s + "]}");
    s.clear(); n = 0;
}
void bin_row_(const char * op, const char * pp, const tdesc & T, const tdesc & U, const tdesc & R,
              i128 rl, i128 rh, unsigned rbits, eval2 f){
    std::string h = std::string("{\"k\":\"bin\",\"op\":\"") + op + "\"," + policy(pp) + ",\"T\":";
    describe(h, T); h += ",\"U\":"; describe(h, U); h += ",\"R\":"; describe(h, R);
    row r; r.begin(h);
    rng g(hash(h.c_str()) ^ seed);
    for(auto & p : pairs(op, T.lo, T.hi, U.lo, U.hi, rl, rh, rbits, budget, g)) r.add(p.t, p.u, run(f, p.t, p.u));
    r.flush();
}
i128 after = 0;
void asg_row_(const char * op, const char * pp, const tdesc & T, const tdesc & U, const tdesc & E,
              unsigned rbits, eval2 f){
    std::string h = std::string("{\"k\":\"asg\",\"op\":\"") + op + "\"," + policy(pp) + ",\"T\":";
    describe(h, T); h += ",\"U\":"; describe(h, U); h += ",\"R\":"; describe(h, E);
    row r; r.begin(h);
    rng g(hash(h.c_str()) ^ seed);
    for(auto & p : pairs(op, T.lo, T.hi, U.lo, U.hi, T.lo, T.hi, rbits, budget, g)){
        outcome o = run(f, p.t, p.u);
        r.add(p.t, p.u, o, &after);
    }
    r.flush();
}
void un_row_(const char * op, const char * pp, const tdesc & T, const tdesc & E, eval2 f){
    std::string h = std::string("{\"k\":\"un\",\"op\":\"") + op + "\"," + policy(pp) + ",\"T\":";
    describe(h, T); h += ",\"R\":"; describe(h, E);
    row r; r.begin(h);
    rng g(hash(h.c_str()) ^ seed);
    std::vector<i128> v = interesting(T.lo, T.hi);
    for(unsigned i = 0; i < budget; ++i) v.push_back(random_in(g, T.lo, T.hi));
    for(i128 t : v){
        outcome o = run(f, t, 0);
        r.add(t, 0, o, &after);
    }
    r.flush();
}
void conv_row_(const char * form, const char * pp, const tdesc & S, const tdesc & D, eval2 f){
    std::string h = std::string("{\"k\":\"conv\",\"op\":\"") + form + "\"," + policy(pp) + ",\"T\":";
    describe(h, S); h += ",\"R\":"; describe(h, D);
    row r; r.begin(h);
    rng g(hash(h.c_str()) ^ seed);
    std::vector<i128> v = interesting(S.lo, S.hi);
    for(i128 d = -2; d <= 2; ++d) for(i128 e : {D.lo, D.hi})
        if(e + d >= S.lo && e + d <= S.hi) v.push_back(e + d);
    for(unsigned i = 0; i < budget; ++i) v.push_back(random_in(g, S.lo, S.hi));
    for(i128 x : v){
        i128 old = random_in(g, D.lo, D.hi);
        after = old;
        outcome o = run(f, x, old);
        r.add(x, old, o, &after);
    }
    r.flush();
}
std::uint64_t seed = 1;
unsigned budget = 60;
FILE * out = 0;
int label = -1;
void emit(const std::string & l){
    if(label >= 0){ std::fprintf(out, "{\"id\":%d,", label); std::fwrite(l.data() + 1, 1, l.size() - 1, out); }
    else std::fwrite(l.data(), 1, l.size(), out);
    std::fputc('\n', out);
}
std::uint64_t hash(const char * s, std::uint64_t h){
    for(; *s; ++s){ h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}
i128 random_in(rng & r, i128 l, i128 h){
    unsigned __int128 span = (unsigned __int128)(h - l) + 1;
    unsigned __int128 x = ((unsigned __int128)r.next() << 64) | r.next();
    if(r.below(3) == 0){                 // log-uniform distance from an end or from zero
        unsigned b = r.below(65);
        unsigned __int128 d = b >= 64 ? r.next() : (r.next() & ((1ull << b) - 1));
        i128 c = r.below(2) ? (r.below(2) ? l : h) : 0;
        i128 y = r.below(2) ? c + (i128)d : c - (i128)d;
        if(y >= l && y <= h) return y;
    }
    return l + (i128)(x % span);
}
std::vector<i128> interesting(i128 l, i128 h){
    std::vector<i128> v;
    auto put = [&](i128 x){ if(x >= l && x <= h) v.push_back(x); };
    for(i128 d = 0; d <= 2; ++d){ put(l + d); put(h - d); put(d); put(-d); }
    for(int b : {7, 8, 15, 16, 31, 32, 63, 64}){
        i128 p = (i128)1 << b;
        for(i128 d = -1; d <= 1; ++d){ put(p + d); put(-p + d); }
    }
    put((l + h) / 2); put(l / 2); put(h / 2); put(h / 2 + 1);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
std::vector<pair> pairs(const std::string & op_, i128 tl, i128 th, i128 ul, i128 uh, i128 rl, i128 rh,
                        unsigned bits, unsigned n, rng & r){
    std::string op = op_;
    bool cmp = op == "<" || op == "<=" || op == ">" || op == ">=" || op == "==" || op == "!=";
    bool asg = !cmp && op.size() > 1 && op.back() == '=';
    if(asg) op.pop_back();
    bool shift = op == "<<" || op == ">>";
    std::vector<pair> p;
    auto put = [&](i128 t, i128 u){
        if(t >= tl && t <= th && u >= ul && u <= uh) p.push_back(pair{t, u});
    };
    // corners
    for(i128 t : {tl, th, tl + 1, th - 1}) for(i128 u : {ul, uh, ul + 1, uh - 1}) put(t, u);
    for(i128 t : {(i128)0, (i128)1, (i128)-1, tl, th}) for(i128 u : {(i128)0, (i128)1, (i128)-1, ul, uh}) put(t, u);
    if(shift){
        std::vector<i128> ts = interesting(tl, th);
        for(i128 u : {(i128)0, (i128)1, (i128)2, (i128)bits - 2, (i128)bits - 1, (i128)bits, (i128)bits + 1, (i128)-1})
            for(i128 t : {(i128)0, (i128)1, (i128)2, (i128)3, (i128)-1, tl, th, random_in(r, tl, th)}) put(t, u);
        for(unsigned i = 0; i < n / 2; ++i){
            i128 u = (i128)r.below(bits + 2);
            i128 t = u < 100 ? (rh >> (int)u) : 0;
            t += (i128)r.below(3) - 1;
            put(t, u);
            put(random_in(r, tl, th), u);
        }
    }
    std::vector<i128> ti = interesting(tl, th), ui = interesting(ul, uh);
    auto rt = [&](){ return r.below(2) ? ti[r.below(ti.size())] : random_in(r, tl, th); };
    auto ru = [&](){ return r.below(2) ? ui[r.below(ui.size())] : random_in(r, ul, uh); };
    for(unsigned i = 0; i < n; ++i){
        i128 t = rt(), u = ru();
        put(t, u);
        if(cmp){ put(t, t); put(t, t + 1); put(t, t - 1); continue; }
        i128 b = r.below(2) ? rh : rl;
        i128 d = (i128)r.below(3) - 1;
        if(op == "+"){ put(t, b - t + d); put(b - u + d, u); }
        if(op == "-"){ put(t, t - b + d); put(b + u + d, u); }
        if(op == "*"){
            if(t) put(t, b / t + d);
            if(u) put(b / u + d, u);
        }
        if(op == "/" || op == "%"){ put(t, d); put(t, t); put(t, -t); if(u) put(u * (i128)(int)(r.below(7) - 3), u); }
    }
    std::sort(p.begin(), p.end(), [](const pair & a, const pair & b){ return a.t < b.t || (a.t == b.t && a.u < b.u); });
    p.erase(std::unique(p.begin(), p.end(), [](const pair & a, const pair & b){ return a.t == b.t && a.u == b.u; }), p.end());
    // keep the corners, thin out the rest
    if(p.size() > 3 * n){
        std::vector<pair> q;
        for(auto & x : p){
            bool corner = (x.t == tl || x.t == th) && (x.u == ul || x.u == uh);
            if(corner || r.below(p.size()) < 3 * n) q.push_back(x);
        }
        p.swap(q);
    }
    return p;
}
} // vt

void body();
int main(int argc, char ** argv){
    vt::out = std::fopen(argv[1], "w");
    if(!vt::out) return 3;
    if(argc > 2) vt::seed = std::strtoull(argv[2], 0, 10);
    if(argc > 3) vt::budget = std::atoi(argv[3]);
    vt::install_traps();
    body();
    std::fclose(vt::out);
    return 0;
}
#include "vt_streams.hpp"
namespace vt {
static void (*cur_f)(void *); static void * cur_p;
static i128 call_cur(i128, i128){ cur_f(cur_p); return 0; }
outcome guarded_(void (*f)(void *), void * p){ cur_f = f; cur_p = p; return run(call_cur, 0, 0); }
std::vector<std::string> texts(i128 l, i128 h, unsigned n, rng & g, unsigned base){
    auto text_of = [base](i128 x){ return vt::text_of(x, base); };
    std::vector<std::string> v;
    std::vector<i128> e;
    for(i128 d = -2; d <= 2; ++d) for(i128 b : {l, h, (i128)0, (i128)1 << 7, (i128)1 << 8, (i128)1 << 15, (i128)1 << 16, (i128)1 << 31,
        (i128)1 << 32, (i128)1 << 63, (i128)1 << 64, -((i128)1 << 7), -((i128)1 << 15), -((i128)1 << 31), -((i128)1 << 63), -((i128)1 << 64)})
        e.push_back(b + d);
    static const char * pre[] = {"", "", "", " ", "\t\n ", "+", "  +", "0", "000", "-0", "-"};
    static const char * post[] = {"", "", "", " ", " 7", "x", ".5", ",000", "\n", "-", "+1", "e3", "'5"};
    static const char * junk[] = {"", " ", "\n", "abc", "-", "+", "--5", "- 5", "+-1", "-+1", "x1", "0x10", "1e5", ".5", "(7)", "'7'", "a", "\"1\"",
        "999999999999999999999999999", "-999999999999999999999999999", "00000000000000000000000000000000007", "-0", "+0", "-00",
        "true", "nan", "inf", "\x01", "7\x7f", "18446744073709551616", "-18446744073709551615", "-4294967295", "-255", "256", "-1"};
    for(const char * j : junk) v.push_back(j);
    for(i128 x : e) if(x >= l - 3 && x <= h + 3) v.push_back(text_of(x));
    for(i128 b : {l, h}) for(i128 d = -1; d <= 1; ++d) v.push_back(text_of(b + d));
    for(unsigned i = 0; i < n; ++i){
        i128 x = g.below(3) ? random_in(g, l, h) : e[g.below(e.size())];
        std::string p = pre[g.below(sizeof pre / sizeof *pre)];
        if(x < 0 && !p.empty() && (p.back() == '+' || p.back() == '-' || p.back() == '0')) p = "";
        v.push_back(p + text_of(x) + post[g.below(sizeof post / sizeof *post)]);
    }
    return v;
}
} // vt
#include "vt_dispatch.hpp"
namespace vt {
std::vector<call> calls;
std::string rhead(const char * k, const char * op, const char * p, const char * pp, const tdesc & T, const tdesc * U, const tdesc & R){
    std::string h = std::string("{\"k\":\"") + k + "\",\"op\":\"" + op + "\",\"p\":\"" + p + "\"," + policy(pp) + ",\"T\":";
    describe(h, T);
    if(U){ h += ",\"U\":"; describe(h, *U); }
    h += ",\"R\":"; describe(h, R);
    return h;
}
void pair_rows(const std::string & head, const char * p, const char * op, const tdesc & T, const tdesc & U, i128 rl, i128 rh, unsigned bits, eval2 f){
    srow r; r.head = head;
    rng g(hash(head.c_str()) ^ seed);
    for(auto & x : pairs(op, T.lo, T.hi, U.lo, U.hi, rl, rh, bits, budget, g))
        r.add(rec(p, x.t, x.u, attempt([&]{ f(x.t, x.u); })));
    r.flush();
}
void value_rows(const std::string & head, const char * p, const tdesc & T, const tdesc * D, eval2 f){
    srow r; r.head = head;
    rng g(hash(head.c_str()) ^ seed);
    std::vector<i128> v = interesting(T.lo, T.hi);
    if(D) for(i128 d = -2; d <= 2; ++d) for(i128 e : {D->lo, D->hi}) if(e + d >= T.lo && e + d <= T.hi) v.push_back(e + d);
    for(unsigned i = 0; i < budget; ++i) v.push_back(random_in(g, T.lo, T.hi));
    for(i128 x : v) r.add(rec(p, x, 0, attempt([&]{ f(x, 0); })));
    r.flush();
}
}
#include "vt_cx.hpp"
namespace vt {
std::string cxhead(const char * k, const char * op, const char * pp, const tdesc & T, const tdesc * U, const tdesc & R){
    std::string h = std::string("{\"k\":\"") + k + "\",\"op\":\"" + op + "\"," + policy(pp) + ",\"T\":";
    describe(h, T);
    if(U){ h += ",\"U\":"; describe(h, *U); }
    h += ",\"R\":"; describe(h, R);
    return h;
}
}
