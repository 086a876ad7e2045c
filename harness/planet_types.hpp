// User-defined planets offering every combination of the optional capabilities (see PlanetDispatch.tla).
#pragma once
#include "dual.hpp"
#include "orbits.hpp"
#include <array>
#include <kep3/planet.hpp>
#include <string>
#include <vector>
namespace pt
{
using orc::LD;
struct Data {
    orc::Orb o;
    LD M0 = 0, rate = 0.3L; // mean anomaly at day zero, per day
    int tag = 0;
    LD mean(double mjd) const { return M0 + rate * static_cast<LD>(mjd); }
    // an orbit that grows and shrinks by half with a period of some days: its energy is not constant
    orc::Orb orbit(double mjd) const { orc::Orb q = o; q.a *= 1 + 0.5L * std::sin(static_cast<LD>(mjd) * 0.37L); return q; }
    orc::RV state(double mjd) const { return orc::rv(orc::stateM(orbit(mjd), mean(mjd))); }
};
constexpr int NTYPES = 530, NPARTS = 8;
constexpr bool right(int t, int j) { return t < 512 ? ((t >> j) & 1) != 0 : t < 521 ? t - 512 != j : false; }
constexpr bool wrong(int t, int j) { return t < 512 ? false : t < 521 ? t - 512 == j : t - 521 == j; }
template <int T>
struct U {
    Data d;
    double get_mu_central_body() const requires(right(T, 0)) { return static_cast<double>(d.o.mu); }
    float get_mu_central_body() const requires(wrong(T, 0)) { return 1.f; }
    double get_mu_self() const requires(right(T, 1)) { return 101 + d.tag; }
    int get_mu_self() const requires(wrong(T, 1)) { return 1; }
    double get_radius() const requires(right(T, 2)) { return 202 + d.tag; }
    const float get_radius() const requires(wrong(T, 2)) { return 1.f; }
    double get_safe_radius() const requires(right(T, 3)) { return 303 + d.tag; }
    long double get_safe_radius() const requires(wrong(T, 3)) { return 1.L; }
    std::string get_name() const requires(right(T, 4)) { return "name" + std::to_string(d.tag); }
    const char *get_name() const requires(wrong(T, 4)) { return "wrong"; }
    std::string get_extra_info() const requires(right(T, 5)) { return "info" + std::to_string(d.tag); }
    const char *get_extra_info() const requires(wrong(T, 5)) { return "wrong"; }
    orc::RV eph(double mjd) const { return d.state(mjd); }
    std::vector<double> eph_v(const std::vector<double> &v) const requires(right(T, 6))
    {
        std::vector<double> r{404. + d.tag};
        for (double x : v) r.push_back(x);
        return r;
    }
    std::vector<float> eph_v(const std::vector<double> &v) const requires(wrong(T, 6)) { return {}; }
    double period(double mjd) const requires(right(T, 7)) { return 505 + d.tag + mjd / 65536; }
    float period(double) const requires(wrong(T, 7)) { return 1.f; }
    std::array<double, 6> elements(double mjd, kep3::elements_type el) const requires(right(T, 8))
    {
        return {606. + d.tag, mjd, static_cast<double>(static_cast<int>(el)), 0., -1., 1.};
    }
    std::array<float, 6> elements(double, kep3::elements_type) const requires(wrong(T, 8)) { return {}; }

    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};
bool make_0(int, const Data &, kep3::planet &, std::string &);
bool make_1(int, const Data &, kep3::planet &, std::string &);
bool make_2(int, const Data &, kep3::planet &, std::string &);
bool make_3(int, const Data &, kep3::planet &, std::string &);
bool make_4(int, const Data &, kep3::planet &, std::string &);
bool make_5(int, const Data &, kep3::planet &, std::string &);
bool make_6(int, const Data &, kep3::planet &, std::string &);
bool make_7(int, const Data &, kep3::planet &, std::string &);
} // namespace pt
