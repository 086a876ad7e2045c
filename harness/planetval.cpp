// Replays behaviours of PlanetValue.tla.
#include "hz.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <fmt/ranges.h>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
#include <map>
#include <memory>
using kep3::planet;
struct bare {
    int tag = 0;
    std::array<std::array<double, 3>, 2> eph(double t) const { return {{{1. + tag, t, 3.}, {4., 5., 6. + tag}}}; }
    template <typename A> void serialize(A &ar, unsigned) { ar & tag; }
};
struct full {
    int tag = 0;
    std::vector<double> more{1., 2., 3.};
    std::array<std::array<double, 3>, 2> eph(double t) const { return {{{10. + tag, t, more[2]}, {4., 5., 6. + tag}}}; }
    std::vector<double> eph_v(const std::vector<double> &v) const { auto r = v; r.push_back(tag); return r; }
    double get_mu_central_body() const { return 1.5 + tag; }
    double get_mu_self() const { return 2.5 + tag; }
    double get_radius() const { return 3.5 + tag; }
    double get_safe_radius() const { return 4.5 + tag; }
    std::string get_name() const { return "full" + std::to_string(tag); }
    std::string get_extra_info() const { return "about " + std::to_string(tag); }
    double period(double t) const { return 7. + tag + t; }
    std::array<double, 6> elements(double t, kep3::elements_type e) const { return {1. * tag, t, static_cast<double>(static_cast<int>(e)), 0, 0, 0}; }
    template <typename A> void serialize(A &ar, unsigned) { ar & tag; ar & more; }
};
TANUKI_S11N_WRAP_EXPORT(bare, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(full, kep3::detail::planet_iface)
// the library's own planets, differing from each other in one constituent at a time
static kep3::udpla::keplerian kep(int t)
{
    std::array<std::array<double, 3>, 2> pv{{{1., 0.1, -0.2}, {0.05, 0.9, 0.3}}};
    std::array<double, 3> add{1.1, 1.2, 1.3};
    double mu = 1.05, ref = 12.25;
    std::string name = "kep";
    switch (t) {
        case 2: pv[1] = {0.1, 1.9, 0.3}; break; // unbound
        case 3: mu = 1.06; break;
        case 4: return kep3::udpla::keplerian(kep3::epoch(9021, 3, 4, 5, 6, 7, 8, 9), pv, mu, name, add);
        case 5: name = "kep with a name"; break;
        case 6: add[0] = 0; break;
        case 7: add[1] = 0; break;
        case 8: add[2] = 0; break;
        default: break;
    }
    return kep3::udpla::keplerian(kep3::epoch(ref), pv, mu, name, add);
}
static kep3::udpla::jpl_lp jpl(int t)
{
    static const char *n[] = {"earth", "mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"};
    return kep3::udpla::jpl_lp(n[t % 9]);
}
static std::string print(const planet &p)
{
    // everything a planet can be asked
    std::string o = fmt::format("{}|{}|{}|{}|{}|{}", p.get_name(), p.get_extra_info(), p.get_mu_central_body(), p.get_mu_self(), p.get_radius(), p.get_safe_radius());
    for (double t : {-17.5, 0., 12.25, 1000.125}) {
        o += fmt::format("|{}", p.eph(t));
        o += fmt::format("|{}", p.eph(kep3::epoch(t)));
        try { o += fmt::format("|{}", p.period(t)); } catch (const std::exception &) { o += "|refused"; }
        for (auto el : {kep3::KEP_M, kep3::KEP_F, kep3::MEQ, kep3::MEQ_R})
            try { o += fmt::format("|{}", p.elements(t, el)); } catch (const std::exception &) { o += "|refused"; }
    }
    o += fmt::format("|{}", p.eph_v(std::vector<double>{1., 2., -3.}));
    std::ostringstream s;
    s << p;
    return o + s.str();
}
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 3), NF = hz::envint("NFILES", 2), NT = hz::envint("NTAGS", 8);
    using Thing = std::pair<std::string, int>;
    auto make = [](const Thing &x) {
        if (x.first == "bare") return planet{bare{x.second}};
        if (x.first == "full") return planet{full{x.second, {1., 2., 3. * x.second}}};
        if (x.first == "kep") return planet{kep(x.second)};
        if (x.first == "jpl") return planet{jpl(x.second)};
        return planet{};
    };
    std::map<std::string, Thing> known;
    known[print(planet{})] = {"null", 0};
    for (const char *k : {"bare", "full", "kep", "jpl"})
        for (int t = 1; t <= NT; ++t) {
            auto fp = print(make({k, t}));
            // (two of them answering alike would already mean that something is lost at construction)
            if (known.count(fp)) known[fp] = {"alike", t};
            else known[fp] = {k, t};
        }
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<std::unique_ptr<planet>> sl(static_cast<std::size_t>(NS) + 1);
        for (auto &p : sl) p = std::make_unique<planet>();
        std::vector<std::pair<std::string, std::string>> fl(static_cast<std::size_t>(NF) + 1);
        auto save = [](const planet &p, const std::string &how) {
            std::ostringstream o;
            boost::archive::binary_oarchive a(o);
            const planet before{full{5}}, after{kep(1)};
            if (how == "among") a << before << p << after; else a << p;
            return std::make_pair(how, o.str());
        };
        for (auto &f : fl) f = save(planet{}, "alone");
        auto who = [&](const planet &p) -> std::string {
            if (is_invalid(p)) return "[\"gone\",0]";
            auto it = known.find(print(p));
            return it == known.end() ? "[\"unknown\",0]" : "[\"" + it->second.first + "\"," + std::to_string(it->second.second) + "]";
        };
        auto seen = [&](hz::Ev &e) -> hz::Ev & {
            std::string o = "[";
            for (std::size_t s = 1; s < sl.size(); ++s) o += (s > 1 ? "," : "") + who(*sl[s]);
            return e.raw("who", o + "]");
        };
        std::string tok;
        while (is >> tok) {
            hz::Ev e(tok);
            std::size_t s = 0, t = 0, f = 0;
            std::string kind, how;
            int tag = 0;
            if (tok == "Start") e.i("id", static_cast<long long>(id));
            else if (tok == "Make") {
                is >> s >> kind >> tag >> how;
                e.i("s", static_cast<long long>(s)).str("kind", kind).i("tag", tag).str("how", how);
                const Thing x{kind, tag};
                if (how == "construct") sl[s] = std::make_unique<planet>(make(x));
                else if (how == "assign") *sl[s] = make(x);
                else if (kind == "bare") *sl[s] = planet{bare{tag}};
                else if (kind == "kep") { const auto k = kep(tag); *sl[s] = planet{k}; }
                else if (kind == "jpl") { auto k = jpl(tag); *sl[s] = planet{std::move(k)}; }
                else *sl[s] = make(x);
            } else if (tok == "Copy") {
                is >> s >> t >> how;
                e.i("s", static_cast<long long>(s)).i("t", static_cast<long long>(t)).str("how", how);
                if (how == "construct") sl[t] = std::make_unique<planet>(*sl[s]);
                else *sl[t] = *sl[s];
            } else if (tok == "Move") {
                is >> s >> t >> how;
                e.i("s", static_cast<long long>(s)).i("t", static_cast<long long>(t)).str("how", how);
                if (how == "construct") sl[t] = std::make_unique<planet>(std::move(*sl[s]));
                else *sl[t] = std::move(*sl[s]);
            } else if (tok == "Swap") {
                is >> s >> t;
                e.i("s", static_cast<long long>(s)).i("t", static_cast<long long>(t));
                using std::swap;
                swap(*sl[s], *sl[t]);
            } else if (tok == "Mutate") {
                is >> s >> tag;
                e.i("s", static_cast<long long>(s)).i("tag", tag);
                if (auto *p = sl[s]->extract<bare>()) p->tag = tag;
                if (auto *p = sl[s]->extract<full>()) { p->tag = tag; p->more[2] = 3. * tag; }
            } else if (tok == "Extract") {
                is >> s >> kind;
                e.i("s", static_cast<long long>(s)).str("kind", kind);
                auto &p = *sl[s];
                const bool found = kind == "null" ? p.extract<kep3::detail::null_udpla>() != nullptr : kind == "bare" ? p.extract<bare>() != nullptr : kind == "full" ? p.extract<full>() != nullptr
                                 : kind == "kep" ? p.extract<kep3::udpla::keplerian>() != nullptr : p.extract<kep3::udpla::jpl_lp>() != nullptr;
                e.i("found", found);
            } else if (tok == "Save") {
                is >> s >> f >> how;
                e.i("s", static_cast<long long>(s)).i("f", static_cast<long long>(f)).str("how", how);
                fl[f] = save(*sl[s], how);
            } else if (tok == "Load") {
                is >> f >> t;
                e.i("f", static_cast<long long>(f)).i("t", static_cast<long long>(t));
                std::istringstream i(fl[f].second);
                boost::archive::binary_iarchive a(i);
                planet x;
                if (fl[f].first == "among") a >> x >> *sl[t] >> x; else a >> *sl[t];
            } else break;
            seen(e).emit();
        }
    });
}
