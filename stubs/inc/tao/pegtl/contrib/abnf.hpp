#pragma once
#include "../../pegtl.hpp"
namespace tao { namespace pegtl { namespace abnf {
    struct WSP {}; struct VCHAR {}; struct ALPHA {}; struct DIGIT {}; struct HEXDIG {}; struct CTL {}; struct CHAR {};
    struct CR {}; struct LF {}; struct CRLF {}; struct SP {}; struct HTAB {}; struct DQUOTE {}; struct OCTET {}; struct LWSP {};
} } }
