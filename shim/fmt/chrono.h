// kep3 asks for fmt >= 10, whose chrono formatting follows the C++20 standard library's; only fmt 9 is installed
// here, so formatting of time points is delegated to std::format.
#pragma once
#include <chrono>
#include <format>
#include <fmt/core.h>
#include <string>
#include <string_view>
template <typename Duration>
struct fmt::formatter<std::chrono::time_point<std::chrono::system_clock, Duration>> {
    std::string spec;
    constexpr auto parse(fmt::format_parse_context &ctx)
    {
        auto it = ctx.begin();
        while (it != ctx.end() && *it != '}') spec.push_back(*it++);
        return it;
    }
    template <typename Ctx>
    auto format(const std::chrono::time_point<std::chrono::system_clock, Duration> &tp, Ctx &ctx) const
    {
        const std::string s = std::vformat("{:" + spec + "}", std::make_format_args(tp));
        auto out = ctx.out();
        for (char c : s) *out++ = c;
        return out;
    }
};
