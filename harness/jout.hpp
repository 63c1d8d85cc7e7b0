// Output helpers of the harnesses: exact integers out of doubles, JSON by hand.
#pragma once
#include <cmath>
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>
namespace jout {
    constexpr long BAD = 2000000001;  // not exactly representable: equal to nothing the specification expects
    // exact: x*scale must be an integer of moderate size
    inline long q(double x, double scale = 1) {
        double y = x * scale;
        if (!(std::fabs(y) < 1.9e9) || y != std::floor(y)) return BAD;
        return static_cast<long>(y);
    }
    // rounded: nearest integer of x*scale
    inline long qr(double x, double scale = 1) {
        double y = x * scale;
        if (!(std::fabs(y) < 1.9e9)) return BAD;
        return std::lround(y);
    }
    template <typename V>
    std::string vec3(V const &v, double scale = 1) {
        std::ostringstream o;
        o << "[" << q(static_cast<double>(v.x), scale) << "," << q(static_cast<double>(v.y), scale) << "," << q(static_cast<double>(v.z), scale) << "]";
        return o.str();
    }
    template <typename A>
    std::string vecs(A const &a, double scale = 1) {
        std::string s = "[";
        bool first = true;
        for (auto const &v : a) {
            if (!first) s += ",";
            first = false;
            s += vec3(v, scale);
        }
        return s + "]";
    }
    template <typename A>
    std::string nums(A const &a, double scale = 1) {
        std::string s = "[";
        bool first = true;
        for (auto const &v : a) {
            if (!first) s += ",";
            first = false;
            s += std::to_string(q(static_cast<double>(v), scale));
        }
        return s + "]";
    }
}  // namespace jout
