// Replays histories of (step, argument) on a set of variables and records outcomes and values.
#ifndef VT_MACHINE_HPP
#define VT_MACHINE_HPP
#include <fstream>
#include <utility>
namespace vt {
struct arg { i128 z = 0; std::string x; };
// the value stored in a safe object, read without going through the library
template<class T> i128 raw(const T & t){
    base<T> b;
    static_assert(sizeof b == sizeof t, "size of a safe type");
    std::memcpy(&b, &t, sizeof b);
    return static_cast<i128>(b);
}
inline i128 parse(const std::string & s){
    i128 v = 0; bool neg = s[0] == '-';
    for(std::size_t i = neg; i < s.size(); ++i) v = v * 10 + (s[i] - '0');
    return neg ? -v : v;
}
template<class Reset, class Exec, class Get>
void run_histories(std::istream & in, Reset reset, Exec exec, Get get, int nv){
    std::string w, line;
    bool open = false;
    auto close = [&]{ if(open) emit("[" + line + "]"); line.clear(); open = false; };
    std::vector<i128> vals(nv);
    while(in >> w){
        if(w == "H"){ close(); open = true; reset(); continue; }
        int s, n; std::string kind; arg a;
        in >> s >> kind >> n;
        if(kind == "x") for(int i = 0; i < n; ++i){ int c; in >> c; a.x += (char)c; }
        else { std::string z; in >> z; a.z = parse(z); }
        outcome o = exec(s, a);
        get(vals.data());
        if(!line.empty()) line += ',';
        line += std::string("[\"") + o.k + "\","; num(line, o.v); line += ",[";
        for(int i = 0; i < nv; ++i){ if(i) line += ','; num(line, vals[i]); }
        line += "]]";
    }
    close();
}
} // vt
#endif
