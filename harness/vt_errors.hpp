// the error codes as std::error_code
#ifndef VT_ERRORS_HPP
#define VT_ERRORS_HPP
#include "vt_dispatch.hpp"
namespace vt {
inline void errors(){
    srow r; r.head = "{\"k\":\"err\"";
    for(int i = 0; i < 11; ++i){
        auto e = static_cast<sn::safe_numerics_error>(i);
        std::error_code c = e;                        // is_error_code_enum
        bool same = c == other_code(i) && other_code(i) == make_error_code(e) && c == e
            && &c.category() == &other_code(i).category() && !(c == other_code((i + 1) % 11)) && (bool)c == (i != 0);
        r.add("[" + std::to_string(c.value()) + "," + std::to_string(i) + "," + q(c.category().name()) + "," + q(c.message()) + ","
            + q(sn::literal_string(e)) + "," + std::to_string((int)sn::make_safe_numerics_action(e)) + "," + (same ? "1" : "0") + "]");
    }
    r.flush();
    srow s; s.head = "{\"k\":\"cond\"";
    for(int a = 0; a < 5; ++a){
        const std::error_condition here(a, sn::safe_numerics_actions_category), there(a, other_category());
        for(int i = -1; i < 11; ++i){
            for(int k = 1; k < (i < 0 ? 11 : 2); ++k){
                const std::error_code c = i < 0 ? std::error_code(k, std::generic_category())
                    : make_error_code(static_cast<sn::safe_numerics_error>(i));
                bool x = c == here, y = c == there, z = i < 0 ? x : other_code(i) == here;
                s.add("[" + std::to_string(i) + "," + std::to_string(a) + "," + (x == y && y == z ? x ? "1" : "0" : "2") + "]");
            }
        }
    }
    s.flush();
    srow t; t.head = "{\"k\":\"act\"";
    for(int a = 0; a < 5; ++a)
        t.add("[" + std::to_string(a) + "," + q(sn::safe_numerics_actions_category.name()) + "," + q(other_category().message(a)) + ","
            + (&other_category() == &sn::safe_numerics_actions_category ? "1" : "0") + "]");
    t.flush();
    srow u; u.head = "{\"k\":\"cnt\"";
    u.add("[" + std::to_string(sn::safe_numerics_casting_error_count) + "," + std::to_string(sn::safe_numerics_error_count) + "]");
    u.flush();
}
} // vt
#endif
