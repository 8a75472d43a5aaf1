// Stand-in for the two pybind11 names the library sources use outside the bindings.
#pragma once
#include <iostream>
#include <string>
namespace pybind11 {
struct arg {
    explicit arg(const char *) {}
    template <typename T>
    arg &operator=(const T &) { return *this; }
};
template <typename... A>
inline void print(const std::string &s, A &&...) { std::cout << s; }
}  // namespace pybind11
