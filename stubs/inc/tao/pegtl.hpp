// Declaration stub for the absent PEGTL 2.8 submodule (analysis only): grammar
// rules are inert tag types; actions are instantiated so their bodies can be read.
#pragma once
#include <cstddef>
#include <cctype>
#include <stdexcept>
#include <algorithm>
#include <string>
#include <utility>
namespace tao { namespace pegtl {
    struct position { std::size_t byte; std::size_t line; std::size_t byte_in_line; std::string source; };
    struct parse_error : std::runtime_error { using std::runtime_error::runtime_error; };
    struct action_input { std::string string() const; const char* begin() const; const char* end() const;
        pegtl::position position() const; bool empty() const; std::size_t size() const; };
    enum class tracking_mode { EAGER, LAZY };
    enum class apply_mode : bool { ACTION = true, NOTHING = false };
    enum class rewind_mode : char { ACTION, REQUIRED, DONTCARE };
    template <tracking_mode M = tracking_mode::EAGER> struct memory_input {
        memory_input(const std::string&, const char*); memory_input(const char*, std::size_t, const char*);
        const char* current() const; pegtl::position position() const; bool empty() const; std::size_t byte() const; };
    template <typename...> struct seq {}; template <typename...> struct sor {}; template <typename...> struct must {};
    template <typename...> struct if_must {}; template <typename...> struct try_catch {}; template <typename...> struct opt {};
    template <typename...> struct star {}; template <typename...> struct plus {}; template <typename...> struct at {};
    template <typename...> struct not_at {}; template <typename...> struct until {}; template <typename...> struct list {};
    template <typename...> struct if_then_else {}; template <typename...> struct pad {}; template <typename...> struct if_apply {};
    template <unsigned, typename...> struct rep_max {}; template <unsigned, unsigned, typename...> struct rep_min_max {};
    template <unsigned, typename...> struct rep {};
    template <typename, typename...> struct control {}; template <template <typename...> class, typename...> struct action_ {};
    template <typename> struct nothing {}; template <typename> struct normal {}; template <typename...> struct change_state {}; template <typename...> struct change_states {};
    struct any {}; struct eof {}; struct digit {}; struct alpha {}; struct alnum {}; struct space {}; struct blank {};
    struct eolf {}; struct eol {}; struct success {}; struct failure {};
    template <char...> struct one {}; template <char...> struct not_one {}; template <char, char> struct range {};
    template <char, char> struct not_range {}; template <char...> struct ranges {}; template <char...> struct string {};
    namespace ascii { using pegtl::eolf; using pegtl::eol; using pegtl::any; using pegtl::alnum; using pegtl::alpha; using pegtl::digit; using pegtl::space; using pegtl::blank;
        template <char...> struct one {}; template <char...> struct not_one {}; template <char, char> struct range {}; }
    namespace utf8 { struct any {}; template <char32_t...> struct one {}; template <char32_t, char32_t> struct range {};
        template <char32_t...> struct ranges {}; }
    namespace impl_stub { template <typename Rule, template <typename> class Action, typename... S>
        auto call(int, S&... s) -> decltype(Action<Rule>::apply(std::declval<const action_input&>(), s...), true) {
            Action<Rule>::apply(*static_cast<const action_input*>(nullptr), s...); return true; }
        template <typename Rule, template <typename> class Action, typename... S> bool call(long, S&...) { return true; } }
    template <typename Rule, template <typename> class Action = nothing, template <typename> class Control = normal, typename In, typename... S>
    bool parse(In&&, S&&... s) { return impl_stub::call<Rule, Action>(0, s...); }
} }
