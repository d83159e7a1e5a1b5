#include "../../../inc/tao/pegtl.hpp"
