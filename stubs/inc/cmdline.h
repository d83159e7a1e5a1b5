// Declaration stub for the absent cmdline submodule (analysis only).
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
namespace cmdline {
    template <class T> struct oneof_reader { T operator()(const std::string&); };
    template <class T> oneof_reader<T> oneof(T a1);
    template <class T> oneof_reader<T> oneof(T a1, T a2);
    class parser {
    public:
        void add(const std::string& name, char short_name = 0, const std::string& desc = "");
        template <class T> void add(const std::string& name, char short_name = 0, const std::string& desc = "", bool need = true, const T def = T());
        template <class T, class F> void add(const std::string& name, char short_name = 0, const std::string& desc = "", bool need = true, const T def = T(), F reader = F());
        void footer(const std::string& f);
        void set_program_name(const std::string& name);
        bool exist(const std::string& name) const;
        template <class T> const T& get(const std::string& name) const;
        const std::vector<std::string>& rest() const;
        void parse_check(int argc, const char* const argv[]);
    };
}
