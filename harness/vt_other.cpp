// a second translation unit that uses the error codes
#include <boost/safe_numerics/exception.hpp>
#include <boost/safe_numerics/safe_integer.hpp>
std::error_code other_code(int i){ return make_error_code(static_cast<boost::safe_numerics::safe_numerics_error>(i)); }
const std::error_category & other_category(){ return boost::safe_numerics::safe_numerics_actions_category; }
