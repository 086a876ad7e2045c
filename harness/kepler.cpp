// Replays behaviours of Kepler.tla in the real propagators.
#include "dual.hpp"
#include "orbits.hpp"
#include "hz.hpp"
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
using namespace orc;
static const int NT = 48;

struct Rep {
    Orb o;
    LD tick, off;     // radians of mean anomaly per tick, offset in ticks
    double mu;
    RV cur;
    long long k;
    LD amp = 0;       // worst precision expected so far
    M66 accref;
    M66 acc;          // accumulated observed tangent map, Cartesian
    RV first; long long kfirst; LD elapsed = 0;
    LD bo = 0, bm = 0; // condition numbers of the history so far (orbit, phase), from the reference motion only
    LD loss = 1;
    LD mean(long long kk) const
    {
        if (!o.hyp()) { LD m = static_cast<LD>(((kk % NT) + NT) % NT) + off; return m * tick; }
        return (static_cast<LD>(kk) + off) * tick;
    }
    double tof(long long dk) const { return static_cast<double>(static_cast<LD>(dk) * tick / o.n()); }
};

// phase (ticks) and errors of a concrete state with respect to the reference orbit
struct Obs { long long ph; LD em, eo; };
static Obs observe(const Rep &p, const RV &s, long long)
{
    Obs ob{1073741823, INFINITY, INFINITY};
    SV q = sv(s);
    for (int i = 0; i < 3; ++i) if (!std::isfinite(s[0][i]) || !std::isfinite(s[1][i])) return ob;
    V3 P, Q;
    perifocal(p.o, P, Q);
    LD x = dot(q.r, P), y = dot(q.r, Q), M;
    if (!p.o.hyp()) {
        LD b = p.o.a * std::sqrt((1 - p.o.e) * (1 + p.o.e));
        LD E = std::atan2(y / b, x / p.o.a + p.o.e);
        M = wrap2pi(E - p.o.e * std::sin(E));
    } else {
        LD b = -p.o.a * std::sqrt((p.o.e - 1) * (p.o.e + 1));
        LD H = std::asinh(y / b);
        M = p.o.e * std::sinh(H) - H;
    }
    LD t = M / p.tick - p.off;
    LD k = std::round(t);
    ob.em = std::fabs(t - k) * p.tick;
    ob.ph = std::fabs(k) < 1e9L ? static_cast<long long>(k) : 1073741823;
    if (!p.o.hyp()) ob.ph = ((ob.ph % NT) + NT) % NT;
    Read rd = read(q, p.o.mu);
    V3 hh = cross(P, Q);
    LD h0 = std::sqrt(p.o.mu * std::fabs(p.o.a * (1 - p.o.e) * (1 + p.o.e)));
    LD eh = norm(rd.h - h0 * hh) / h0, ee = norm(rd.ev - p.o.e * P), ea = std::fabs(rd.a / p.o.a - 1);
    ob.eo = std::max({eh, ee, ea});
    return ob;
}
static LD cond(const Rep &p, const RV &in, const SV &out, LD dM) { return orc::cond(in, out, dM / p.o.n(), p.mu); }
// one more step of dM: the reference condition numbers of the history; false if the phase can no longer be resolved
static bool budget(Rep &p, long long k1, LD loss)
{
    LD dM = std::fabs(static_cast<LD>(k1 - p.k)) * p.tick;
    LD s = sens(p.o, p.mean(p.k)) + sens(p.o, p.mean(k1)) * (1 + lagrange(stateM(p.o, p.mean(p.k)), stateM(p.o, p.mean(k1))));
    p.loss = std::max(p.loss, loss);
    p.bo += s;
    p.bm += s + (1 + 1.5L * p.bo) * dM;
    return p.bm * p.loss * 1e-13L < 0.05L * p.tick;
}
static bool same(const RV &a, const RV &b) { return std::memcmp(&a, &b, sizeof(RV)) == 0; }

static LD stats[4] = {0, 0, 0, 0};

int main(int argc, char **argv)
{
    const int R = hz::envint("REPS", 16);
    int rc = hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<Rep> reps;
        std::string tok;
        while (is >> tok) {
            if (tok == "Start") {
                std::string cls, ori, unit, off, tick;
                long long k0;
                is >> cls >> ori >> unit >> off >> tick >> k0;
                reps.clear();
                for (int r = 0; r < R; ++r) {
                    Rng g(hz::envseed() * 1000003ULL + id * 131ULL + static_cast<std::uint64_t>(r));
                    Rep p;
                    p.o = shape(cls, ori, unit, g, r);
                    p.mu = static_cast<double>(p.o.mu);
                    p.off = off == "apse" ? 0 : g.u(0.05L, 0.95L);
                    p.tick = tick == "turn" ? 2 * PI / NT : tick == "fine" ? g.lg(0.003L, 0.3L) : tick == "coarse" ? g.u(0.3L, 3) : g.lg(3, 100);
                    p.k = p.kfirst = k0;
                    p.cur = p.first = rv(stateM(p.o, p.mean(k0)));
                    p.bo = p.bm = sens(p.o, p.mean(k0));
                    for (int i = 0; i < 6; ++i) { p.acc[i].fill(0); p.acc[i][i] = 1; }
                    p.accref = p.acc;
                    reps.push_back(p);
                }
                hz::Ev("Start").i("id", static_cast<long long>(id)).str("cls", cls).str("ori", ori).str("unit", unit).str("off", off).str("tick", tick).i("k", k0).emit();
            } else if (tok == "Prop") {
                std::string m;
                long long dk;
                is >> m >> dk;
                hz::Seen out, ph;
                LD em = 0, eo = 0, loc = 0;
                int worst = 0;
                std::erase_if(reps, [&](Rep &p) { return !budget(p, p.k + dk, m == "kep" ? 1e7L : 1); });
                for (auto &p : reps) {
                    double tof = p.tof(dk);
                    RV res{};
                    try {
                        if (m == "lag") res = kep3::propagate_lagrangian(p.cur, tof, p.mu, false).first;
                        else if (m == "uni") res = kep3::propagate_lagrangian_u(p.cur, tof, p.mu, false).first;
                        else res = kep3::propagate_keplerian(p.cur, tof, p.mu, false).first;
                        out.add("\"ok\"");
                    } catch (const std::exception &ex) { out.add(hz::Ev::quote(std::string("throw"))); }
                    SV ref = kepler(sv(p.cur), tof, p.mu);
                    LD dM = static_cast<LD>(dk) * p.tick;
                    LD l = dist(res, ref) / cond(p, p.cur, ref, dM);
                    if (!(l <= loc)) { loc = l; worst = static_cast<int>(&p - reps.data()); }
                    p.k += dk;
                    Obs ob = observe(p, res, p.k);
                    ph.add(std::to_string(ob.ph));
                    for (int i = 0; i < 6; ++i) { p.acc[i].fill(0); p.acc[i][i] = 1; }
                    p.accref = p.acc; p.amp = 0; p.kfirst = p.k; p.first = res; p.elapsed = 0;
                    if (!(ob.em / p.bm <= em)) em = ob.em / p.bm;
                    if (!(ob.eo / p.bm <= eo)) eo = ob.eo / p.bm;
                    p.cur = res;
                }
                hz::Ev("Prop").str("m", m).i("dk", dk).raw("out", out.json()).raw("ph", ph.json()).i("n", static_cast<long long>(reps.size())).i("em", quant(em, 1e-15L)).i("eo", quant(eo, 1e-15L)).i("loc", quant(loc, m == "kep" ? 1e-13L : 1e-15L)).i("w", worst).emit();
            } else if (tok == "Vec") {
                int n, s;
                is >> n;
                std::vector<long long> ds(static_cast<std::size_t>(n));
                for (auto &d : ds) is >> d;
                is >> s;
                hz::Seen out, ph, has;
                LD loc = 0;
                int sm = 1;
                for (auto &p : reps) {
                    std::vector<double> tofs;
                    for (auto d : ds) tofs.push_back(p.tof(d));
                    try {
                        auto res = kep3::propagate_lagrangian_v(p.cur, tofs, p.mu, s != 0);
                        out.add("\"ok\"");
                        std::vector<long long> obs;
                        if (res.size() != ds.size()) sm = 0;
                        for (std::size_t j = 0; j < res.size(); ++j) {
                            has.add(res[j].second ? "1" : "0");
                            obs.push_back(observe(p, res[j].first, 0).ph);
                            if (j < ds.size()) {
                                SV ref = kepler(sv(p.cur), tofs[j], p.mu);
                                LD l = dist(res[j].first, ref) / cond(p, p.cur, ref, static_cast<LD>(ds[j]) * p.tick); if (!(l <= loc)) loc = l;
                                auto one = kep3::propagate_lagrangian(p.cur, tofs[j], p.mu, s != 0);
                                if (!same(one.first, res[j].first)) sm = 0;
                                if (one.second != res[j].second) sm = 0;
                            }
                        }
                        ph.add(hz::Ev::list(obs));
                    } catch (const std::exception &) { out.add("\"throw\""); }
                }
                hz::Ev("Vec").ints("ds", ds).i("stm", s).raw("out", out.json()).raw("ph", ph.json()).raw("hasstm", has.json()).i("loc", quant(loc, 1e-15L)).i("same", sm).emit();
            } else if (tok == "Stm") {
                std::string a;
                long long dk;
                is >> a >> dk;
                hz::Seen out, ph, cs, cas;
                LD loc = 0, sloc = 0, craw = 0;
                int sm = 1;
                std::erase_if(reps, [&](Rep &p) { return !budget(p, p.k + dk, 1); });
                for (auto &p : reps) {
                    double tof = p.tof(dk);
                    RV res{};
                    std::optional<std::array<double, 36>> M;
                    try {
                        if (a == "lagr") std::tie(res, M) = kep3::propagate_lagrangian(p.cur, tof, p.mu, true);
                        else std::tie(res, M) = kep3::propagate_stm_reynolds(p.cur, tof, p.mu, true);
                        auto plain = kep3::propagate_lagrangian(p.cur, tof, p.mu, false);
                        if (!same(plain.first, res) || plain.second) sm = 0;
                        if (a == "reyn") {
                            auto none = kep3::propagate_stm_reynolds(p.cur, tof, p.mu, false);
                            if (!same(none.first, res) || none.second) sm = 0;
                            auto direct = kep3::stm_reynolds(p.cur, res, tof, p.mu);
                            if (!M || direct != *M) sm = 0;
                        }
                        out.add(M ? "\"ok\"" : "\"none\"");
                    } catch (const std::exception &) { out.add("\"throw\""); }
                    LD dM = static_cast<LD>(dk) * p.tick;
                    SV ref = kepler(sv(p.cur), tof, p.mu);
                    LD cd = cond(p, p.cur, ref, dM);
                    { LD l = dist(res, ref) / cd; if (!(l <= loc)) loc = l; }
                    M66 m{}, mref = stmRef(p.cur, tof, p.mu);
                    if (M) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m[i][j] = (*M)[static_cast<std::size_t>(6 * i + j)];
                    // scaled error
                    LD R0 = norm(V3(p.cur[0])), V0 = norm(V3(p.cur[1])), Rf = norm(ref.r), Vf = norm(ref.v), num = 0, den = 0;
                    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
                        LD sc = (j < 3 ? R0 : V0) / (i < 3 ? Rf : Vf);
                        LD dlt = std::fabs(m[i][j] - mref[i][j]) * sc;
                        if (!(dlt <= num)) num = dlt;
                        den = std::max(den, std::fabs(mref[i][j]) * sc);
                    }
                    LD sl = num / den / cd;
                    if (!(sl <= sloc)) sloc = sl;
                    // tangent map in orbital coordinates
                    long long k1 = p.k + dk;
                    auto n_of = [&](const RV &c) { Read q = read(sv(c), p.mu); return std::sqrt(static_cast<LD>(p.mu) / std::fabs(q.a * q.a * q.a)); };
                    auto coords = [&](const M66 &mm, const Coord &from, LD arc) {
                        M66 c = mul(inverse(from.basis(from.lam + arc)), mul(mm, from.basis(from.lam)));
                        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (i == 1 && j == 0) c[i][j] /= -1.5L * p.tick;
                        std::string o = "[";
                        for (int i = 0; i < 6; ++i) {
                            o += i ? ",[" : "[";
                            for (int j = 0; j < 6; ++j) {
                                LD q = std::round(c[i][j]);
                                LD dv = std::fabs(c[i][j] - q);
                                if (!(dv <= craw)) craw = dv;
                                bool okv = dv < 0.25L && std::fabs(q) < 1e8L;
                                o += (j ? "," : "") + (okv ? std::to_string(static_cast<long long>(q)) : std::string("1073741823"));
                            }
                            o += "]";
                        }
                        return o + "]";
                    };
                    // precision to be expected of the integer coordinates, from the reference motion alone
                    auto expected = [&](const M66 &mm, long long ka) {
                        LD amp = sens(p.o, p.mean(k1)), big = 0, b0 = 0;
                        M66 B = basis(p.o, p.mean(ka));
                        SV sa = stateM(p.o, p.mean(ka));
                        LD Ra = norm(sa.r), Va = norm(sa.v);
                        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
                            big = std::max(big, std::fabs(mm[i][j]) * (j < 3 ? Ra : Va) / (i < 3 ? Rf : Vf));
                            b0 = std::max(b0, std::fabs(B[i][j]) / (i < 3 ? Ra : Va));
                        }
                        return amp * big * b0 / std::min<LD>(1, p.tick);
                    };
                    p.accref = mul(mref, p.accref);
                    p.acc = mul(m, p.acc);
                    LD unit = 1e-15L * (p.o.hyp() ? (a == "reyn" ? 400000 : 4000) : (a == "reyn" ? 20000 : 200)), x = expected(mref, p.k) * cd * unit;
                    p.elapsed += tof;
                    LD drift = 0;
                    // the next matrix is taken at a state a few roundings away from where this one ends
                    { LD se = sens(p.o, p.mean(k1)); drift = 1e-14L * cd * se * se * (1 + std::fabs(static_cast<LD>(k1 - p.kfirst))) / std::min<LD>(1, p.tick); }
                    p.amp = std::max(p.amp + x, expected(p.accref, p.kfirst) * cd * unit) ;
                    if (x < 0.01L && p.tick < 3) cs.add(coords(m, Coord(p.o, sv(p.cur)), n_of(p.cur) * tof));
                    if (p.amp < 0.01L && p.tick < 3) cas.add(coords(p.acc, Coord(p.o, sv(p.first)), n_of(p.first) * p.elapsed));
                    p.amp += drift;
                    p.k = k1;
                    Obs ob = observe(p, res, p.k);
                    ph.add(std::to_string(ob.ph));
                    p.cur = res;
                }
                hz::Ev("Stm").str("a", a).i("dk", dk).i("n", static_cast<long long>(reps.size())).raw("out", out.json()).raw("ph", ph.json()).raw("c", cs.json()).raw("ca", cas.json()).i("loc", quant(loc, 1e-15L)).i("sloc", quant(sloc, 1e-15L)).i("craw", quant(craw, 1e-9L)).i("same", sm).emit();
            }
        }
    });
    return rc;
}
