// Replays behaviours of Epoch.tla: dates, day counts, durations and strings.
#include "hz.hpp"
#include <array>
#include <algorithm>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <cmath>
#include <kep3/epoch.hpp>
using kep3::epoch;
using LL = long long;
using LD = long double;
using Ints = std::vector<LL>;
static constexpr LL DAY = 86400000000LL, Y2K = 946684800000000LL;
static Ints split(__int128 us)
{
    auto fl = [](__int128 a, __int128 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
    LL d = static_cast<LL>(fl(us, DAY));
    LL r = static_cast<LL>(us - static_cast<__int128>(d) * DAY);
    return {d, r / 1000000, r % 1000000};
}
static Ints splitDays(double v)
{
    if (!(std::fabs(v) < 1e9)) return {-999999999, 0, 0};
    LD f = std::floor(static_cast<LD>(v)), r = (static_cast<LD>(v) - f) * 86400e6L;
    return split(static_cast<__int128>(f) * DAY + static_cast<__int128>(std::llround(r)));
}
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 3), NF = hz::envint("NFILES", 1);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<epoch> ep(static_cast<std::size_t>(NS) + 1);
        std::vector<std::pair<std::string, std::string>> fl(static_cast<std::size_t>(NF) + 1);
        for (auto &f : fl) { std::ostringstream o; boost::archive::text_oarchive a(o); const epoch z; a << z; f = {"text", o.str()}; }
        auto list = [&] { std::size_t n; is >> n; Ints v(n); for (auto &x : v) is >> x; return v; };
        auto seen = [&](hz::Ev &e) -> hz::Ev & {
            std::string o = "[";
            for (std::size_t s = 1; s < ep.size(); ++s) o += (s > 1 ? "," : "") + hz::Ev::list(split(static_cast<__int128>(ep[s].get_tp().time_since_epoch().count()) - Y2K));
            return e.raw("eps", o + "]");
        };
        auto tryit = [&](auto f) -> std::string { try { f(); return "ok"; } catch (const std::exception &) { return "refused"; } };
        // calls f with the duration as the given kind
        auto dur = [&](const std::string &kind, const Ints &x, auto f) {
            using namespace std::chrono;
            const LL us = x[0] * DAY + x[1] * 1000000 + x[2];
            const LL s = x[0] * 86400 + x[1];
            if (kind == "us") f(kep3::microseconds(us));
            else if (kind == "ns") f(nanoseconds(us * 1000 + (us >= 0 ? 1 : -1) * static_cast<LL>(id % 1000)));
            else if (kind == "s") f(seconds(s));
            else if (kind == "min") f(minutes(s / 60));
            else if (kind == "h") f(hours(s / 3600));
            else if (kind == "days") f(days(x[0]));
            else if (kind == "ddays") f(duration<double, std::ratio<86400>>(static_cast<double>(x[0]) + static_cast<double>(x[1]) / 86400.));
            else if (kind == "epdays") f(epoch::days(static_cast<double>(x[0]) + static_cast<double>(x[1]) / 86400.));
            else if (kind == "epsec") f(epoch::sec(static_cast<double>(x[1]) + static_cast<double>(x[2]) / 1e6));
            else f(duration<double>(static_cast<double>(x[1]) + static_cast<double>(x[2]) / 1e6));
        };
        std::string tok;
        while (is >> tok) {
            hz::Ev E(tok);
            std::size_t s = 0, t = 0;
            if (tok == "Start") {
                seen(E.i("id", static_cast<LL>(id))).emit();
            } else if (tok == "Cal") {
                is >> s;
                Ints f = list();
                std::string out = tryit([&] {
                    ep[s] = epoch(static_cast<int>(f[0]), static_cast<unsigned>(f[1]), static_cast<unsigned>(f[2]), static_cast<std::int32_t>(f[3]), static_cast<std::int32_t>(f[4]),
                                  static_cast<std::int32_t>(f[5]), static_cast<std::int32_t>(f[6]), static_cast<std::int32_t>(f[7]));
                });
                seen(E.i("s", static_cast<LL>(s)).ints("f", f).str("out", out)).emit();
            } else if (tok == "Count") {
                std::string type;
                LL d, k;
                is >> s >> type >> d >> k;
                double v = static_cast<double>(d) + static_cast<double>(k) / 128.;
                if (type == "MJD2000") ep[s] = id % 2 ? epoch(v) : epoch(v, epoch::julian_type::MJD2000);
                else ep[s] = epoch(v, type == "MJD" ? epoch::julian_type::MJD : epoch::julian_type::JD);
                seen(E.i("s", static_cast<LL>(s)).str("type", type).i("d", d).i("k", k)).emit();
            } else if (tok == "Since") {
                std::string kind;
                is >> s >> kind;
                Ints x = list();
                dur(kind, x, [&](auto d) { ep[s] = epoch(d); });
                seen(E.i("s", static_cast<LL>(s)).str("kind", kind).ints("x", x)).emit();
            } else if (tok == "Shift" || tok == "ShiftTo") {
                std::string kind;
                LL sign;
                is >> s;
                if (tok == "ShiftTo") is >> t;
                is >> kind;
                Ints x = list();
                is >> sign;
                if (tok == "Shift") dur(kind, x, [&](auto d) { if (sign == 1) ep[s] += d; else ep[s] -= d; });
                else dur(kind, x, [&](auto d) { ep[t] = sign == 1 ? ep[s] + d : ep[s] - d; });
                E.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t)).str("kind", kind).ints("x", x).i("sign", sign);
                seen(E).emit();
            } else if (tok == "Copy") {
                std::string how;
                is >> s >> t >> how;
                if (how == "copy") { epoch c(ep[s]); ep[t] = c; }
                else if (how == "tp") ep[t] = epoch(ep[s].get_tp());
                else { epoch c(ep[s]); ep[t] = std::move(c); }
                seen(E.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t))).emit();
            } else if (tok == "Save") {
                std::size_t f;
                std::string how;
                is >> s >> f >> how;
                std::ostringstream o;
                const epoch &e = ep[s];
                if (how == "text") { boost::archive::text_oarchive a(o); a << e; } else { boost::archive::binary_oarchive a(o); a << e; }
                fl[f] = {how, o.str()};
                seen(E.i("s", static_cast<LL>(s)).i("f", static_cast<LL>(f))).emit();
            } else if (tok == "Load") {
                std::size_t f;
                is >> f >> t;
                try {
                    std::istringstream i(fl[f].second);
                    if (fl[f].first == "text") { boost::archive::text_iarchive a(i); a >> ep[t]; } else { boost::archive::binary_iarchive a(i); a >> ep[t]; }
                } catch (const std::exception &) { ep[t] = epoch(1e6); }
                seen(E.i("f", static_cast<LL>(f)).i("t", static_cast<LL>(t))).emit();
            } else if (tok == "Parse") {
                LL k, nd, hurt, at;
                std::string str;
                is >> s;
                Ints f = list();
                is >> k >> nd >> hurt >> at >> str;
                std::string in = str;
                // damages that no date string may have
                if (hurt) {
                    std::vector<std::size_t> dg;
                    for (std::size_t i = 0; i < in.size(); ++i) if (in[i] >= '0' && in[i] <= '9') dg.push_back(i);
                    std::size_t p = dg[static_cast<std::size_t>(at) % dg.size()];
                    if (hurt == 1) in += in.size() == 19 ? "." : (in.size() < 19 ? "-" : "0000000");
                    else if (hurt == 2) in = in.substr(0, in.size() > 7 && in.size() <= 19 ? in.size() - 1 : static_cast<std::size_t>(at) % 7);
                    else if (hurt == 3) in[p] = 'x';
                    else if (hurt == 4) in[p] = ' ';
                    else if (hurt == 5) in[p] = '-';
                    else if (hurt == 6) in[p] = '+';
                    else if (hurt == 7) in[p] = '.';
                    else if (hurt == 8) in[p] = ':';
                    else in = "";
                }
                std::string out = tryit([&] { ep[s] = epoch(in); });
                seen(E.i("s", static_cast<LL>(s)).ints("f", f).i("k", k).i("nd", nd).i("hurt", hurt).str("str", str).str("read", in).str("out", out)).emit();
            } else if (tok == "Print") {
                is >> s;
                std::ostringstream o;
                o << ep[s];
                std::vector<std::string> v{o.str(), ep[s].as_utc_string(), epoch::as_utc_string(ep[s].get_tp()), fmt::format("{}", ep[s])};
                seen(E.i("s", static_cast<LL>(s)).strs("text", v)).emit();
            } else if (tok == "Reparse") {
                is >> s >> t;
                try { ep[t] = epoch(ep[s].as_utc_string()); } catch (const std::exception &) { ep[t] = epoch(1e6); }
                seen(E.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t))).emit();
            } else if (tok == "Query") {
                is >> s >> t;
                const epoch &a = ep[s], &b = ep[t];
                const LL us = a.get_tp().time_since_epoch().count() - Y2K;
                LD worst = 0;
                for (auto [v, o] : {std::pair{a.mjd2000(), 0LL}, {a.mjd(), 51544 * DAY}, {a.jd(), 2451544 * DAY + DAY / 2}}) {
                    LD ref = static_cast<LD>(us + o) / 86400e6L, u = std::max(std::fabs(std::nextafter(v, 1e300) - v), 1e-300);
                    LD e = std::fabs(v - ref) / u;
                    if (!(e <= worst)) worst = e;
                }
                LD sec = std::fabs(epoch::as_sec(a - b) - static_cast<LD>((a - b).count()) / 1e6L) / (1e-16L + std::fabs(static_cast<LD>((a - b).count()) / 1e6L) * 2.3e-16L);
                if (!(sec <= worst)) worst = sec;
                seen(E.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t)).ints("diff", split((a - b).count())).ints("order", Ints{a > b, a < b, a >= b, a <= b, a == b, a != b})
                    .ints("mjd2000", splitDays(a.mjd2000())).ints("mjd", splitDays(a.mjd())).ints("jd", splitDays(a.jd())).i("ulp", worst < 1e6L ? static_cast<LL>(std::ceil(worst)) : 1000000)).emit();
            }
        }
    });
}
