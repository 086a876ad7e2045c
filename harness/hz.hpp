// Harness plumbing: reads behaviours (whitespace tokens, one behaviour per line), writes ndjson events,
// turns crashes and hangs of the code under test into events no specification allows.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace hz
{
inline int &outfd() { static int fd = 1; return fd; }
inline void raw(const std::string &s)
{
    std::size_t o = 0;
    while (o < s.size()) {
        auto n = ::write(outfd(), s.data() + o, s.size() - o);
        if (n <= 0) _exit(9);
        o += static_cast<std::size_t>(n);
    }
}
inline void on_signal(int sig)
{
    char b[64];
    int n = std::snprintf(b, sizeof b, "{\"ev\":\"%s\",\"sig\":%d}\n", sig == SIGPROF ? "Hang" : "Crash", sig);
    (void)!::write(outfd(), b, static_cast<std::size_t>(n));
    _exit(0);
}
inline void guard()
{
    static char stack[1 << 16];
    stack_t ss{};
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
}
// CPU-time budget for the current behaviour
inline void watchdog(int seconds)
{
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

class Ev
{
    std::string s;

public:
    explicit Ev(const std::string &name) { s = "{\"ev\":\"" + name + "\""; }
    Ev &raw(const char *key, const std::string &v)
    {
        s += std::string(",\"") + key + "\":" + v;
        return *this;
    }
    Ev &i(const char *key, long long v) { return raw(key, std::to_string(v)); }
    Ev &str(const char *key, const std::string &v) { return raw(key, quote(v)); }
    template <typename C>
    Ev &ints(const char *key, const C &c)
    {
        return raw(key, list(c));
    }
    template <typename C>
    Ev &strs(const char *key, const C &c)
    {
        std::string o = "[";
        bool first = true;
        for (const auto &x : c) {
            if (!first) o += ",";
            first = false;
            o += quote(x);
        }
        return raw(key, o + "]");
    }
    static std::string quote(const std::string &v)
    {
        std::string o = "\"";
        for (char c : v) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) o += '?';
            else o += c;
        }
        return o + "\"";
    }
    template <typename C>
    static std::string list(const C &c)
    {
        std::string o = "[";
        bool first = true;
        for (const auto &x : c) {
            if (!first) o += ",";
            first = false;
            o += std::to_string(x);
        }
        return o + "]";
    }
    void emit() { hz::raw(s + "}\n"); }
    std::string text() const { return s + "}"; }
};
// Set of distinct JSON values seen across the sampled representatives.
struct Seen {
    std::vector<std::string> v;
    void add(const std::string &j)
    {
        for (auto &x : v) if (x == j) return;
        if (v.size() < 4) v.push_back(j);
    }
    std::string json() const
    {
        std::string o = "[";
        for (std::size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + v[i];
        return o + "]";
    }
};
inline std::uint64_t envseed()
{
    const char *s = std::getenv("VERIF_SEED");
    return s ? std::strtoull(s, nullptr, 10) : 1;
}
inline int envint(const char *n, int d)
{
    const char *s = std::getenv(n);
    return s ? std::atoi(s) : d;
}
// main loop: one behaviour per line
inline int run(int argc, char **argv, const std::function<void(std::uint64_t, std::istringstream &)> &f, int cpu = 60)
{
    (void)argc; (void)argv;
    guard();
    std::string line;
    std::uint64_t n = 0;
    while (std::getline(std::cin, line)) {
        watchdog(cpu);
        std::istringstream is(line);
        std::uint64_t id = 0;
        is >> id;
        f(id, is);
        ++n;
    }
    return 0;
}
} // namespace hz
