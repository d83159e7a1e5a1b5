// Declaration stub for the absent MPark.Variant submodule: same interface, from std.
#pragma once
#include <cstdint>
#include <variant>
namespace mpark { using namespace std; }
