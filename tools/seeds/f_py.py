P2P, PL2 = "pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"
MG = "pykep/trajopt/_mga.py"
PH = """
import sys, copy, pickle
import numpy as np
import pykep as pk


def bad(*a):
    print(*a)
    sys.exit(1)


"""
MH = PH + """
E, V, M = [pk.planet(pk.udpla.jpl_lp(x)) for x in ("earth", "venus", "mars")]
"""
PLP, PLL, PLB, PLS, PLI = ["pykep/plot/_%s.py" % x for x in ("planet", "lambert", "ballistic", "sf_leg", "_init__")]
AXH = PH + """
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))


class Ax:
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self.calls.append((name, a, k))


ax = Ax()
"""
S = [
 dict(id="c24-eta-three", property="C24", src="py",
  edits=[(MG, """            T = [0] * self._n_legs
            T[0] = dt * x[1]
            for i in range(1, len(T)):
                T[i] = (dt - sum(T[:i])) * x[i + 1]
            return T
""", """            T = [0] * self._n_legs
            T[0] = dt * x[1]
            left = dt
            for i in range(1, len(T)):
                left = dt - T[i - 1]
                T[i] = left * x[i + 1]
            return T
""")],
  needs="an eta problem of three legs or more",
  breaks="the third leg takes its share of more time than is left: another trajectory, another cost than after conversion",
  demo=MH + """
u = pk.trajopt.mga([E, V, E, M], [0, 1000], 900.0, tof_encoding="eta")
d = pk.trajopt.mga([E, V, E, M], [0, 1000], [[1, 900]] * 3)
x = [100.0, 0.3, 0.4, 0.5]
a, b = u.fitness(x)[0], d.fitness(u.eta2direct(x))[0]
if not abs(a - b) < 1e-6 * b:
    bad(a, b)
"""),
 dict(id="c24-memo", property="C24", src="py",
  edits=[(MG, """        # 1 -  we 'decode' the times of flights and compute all epochs (mjd2000)
        # of the various planetary encounters
""", """        # 0 - the optimisers often ask twice for the same chromosome
        if getattr(self, "_last", None) is not None and self._last[0] is x:
            return self._last[1]
        # 1 -  we 'decode' the times of flights and compute all epochs (mjd2000)
        # of the various planetary encounters
"""), (MG, "        return (DVlaunch, DVfb, DVarrival, lps, DVlaunch_tot, ep, T)\n", "        self._last = (x, (DVlaunch, DVfb, DVarrival, lps, DVlaunch_tot, ep, T))\n        return self._last[1]\n")],
  needs="a chromosome array changed in place between two evaluations",
  breaks="the cost of the old chromosome is returned",
  demo=MH + """
u = pk.trajopt.mga()
x = np.array([10.0, 150.0, 220.0])
a = u.fitness(x)[0]
x[1] = 100.0
b, c = u.fitness(x)[0], pk.trajopt.mga().fitness(np.array(x))[0]
if b != c:
    bad(a, b, c)
"""),
 dict(id="c24-free-launch", property="C24", src="py",
  edits=[(MG, "DVlaunch = max(0, DVlaunch_tot - self.vinf)", "DVlaunch = _np.abs(DVlaunch_tot - self.vinf)")],
  needs="a launch that needs less than what the launcher gives for free",
  breaks="unused launch capability is paid for",
  demo=MH + """
x = [100.0, 300.0]
f = [pk.trajopt.mga([E, M], [0, 1000], [[10, 900]], vinf=v).fitness(x)[0] for v in (100.0, 200.0)]
if abs(f[0] - f[1]) > 1e-6:
    bad(f)
"""),
 dict(id="c24-last-instant", property="C24", src="py",
  edits=[(MG, "from bisect import bisect_left", "from bisect import bisect_right"), (MG, "                i = bisect_left(\n", "                i = bisect_right(\n")],
  needs="the spacecraft asked exactly at its arrival",
  breaks="there is no leg after the last one",
  demo=MH + """
s = pk.trajopt.mga().to_planet([100.0, 150.0, 220.0])
r, _ = s.eph(470.0)
p, _ = E.eph(470.0)
if not np.linalg.norm(np.array(r) - p) < 1e4:
    bad(r, p)
"""),
 dict(id="c24-bounds-kept", property="C24", src="py",
  edits=[(MG, """        # 3 - Check the tof bounds
""", """        # 3 - Check the tof bounds (tolerating bounds given the other way around in the alpha encoding)
        if tof_encoding == "alpha" and type(tof) is list and len(tof) == 2:
            tof[:] = [float(min(tof)), float(max(tof))]
""")],
  needs="bounds on the total time of flight kept by the caller, given as integers or upside down",
  breaks="the constructor writes into the list of its caller",
  demo=MH + """
t = [300, 200]
pk.trajopt.mga([E, V, E], [0, 1000], t, tof_encoding="alpha")
w = [200, 300]
pk.trajopt.mga([E, V, E], [0, 1000], w, tof_encoding="alpha")
if t != [300, 200] or type(w[0]) is not int:
    bad(t, w)
"""),
]
UH = PH + """
class U:
    def __init__(self, n=1.0):
        self.n = n

    def eph(self, t):
        return [[1.0 + self.n, 0, 0.1 * t], [0, 1.0, 0.2]]


"""
S += [
 dict(id="c30-period-mu", property="C30", src="py",
  edits=[("pykep/python_udpla.cpp", """    if (udpla_period.is_none()) {
        if (udpla_get_mu_central_body.is_none()) {
            pykep::py_throw(""", """    if (udpla_period.is_none()) {
        // (the central body seldom changes)
        static const double last_mu = get_mu_central_body();
        if (udpla_get_mu_central_body.is_none()) {
            pykep::py_throw("""), ("pykep/python_udpla.cpp", "            double mu = get_mu_central_body();\n            double R", "            double mu = last_mu;\n            double R")],
  needs="two planets around different central bodies, neither with a method for the period",
  breaks="the period of the second is computed with the central body of the first",
  demo=UH + """
class A(U):
    def get_mu_central_body(self):
        return 5.0 + self.n


a, b = pk.planet(A(1.0)).period(), pk.planet(A(20.0)).period()
eph = A(20.0).eph(0.0)
en = 0.5 * 1.04 - 25.0 / 21.0
ref = 2 * np.pi * ((-25.0 / 2 / en) ** 3 / 25.0) ** 0.5
if not abs(b - ref) < 1e-8 * ref:
    bad(a, b, ref)
"""),
 dict(id="c30-eph-epoch", property="C30", src="py",
  edits=[("pykep/python_udpla.cpp", "    return kep3::detail::elements_from_posvel(pos_vel, mu, el_type);" if False else "        auto pos_vel = eph(mjd2000);\n", "        auto pos_vel = eph(std::floor(mjd2000 * 2.) / 2.);\n")],
  needs="osculating elements at a time that is not at midnight or noon, of a planet without a method for them",
  breaks="the elements are those of an earlier time",
  demo=UH + """
class A(U):
    def get_mu_central_body(self):
        return 3.0


p = pk.planet(A())
for t in (0.0, 0.5, 0.25, 3.75):
    a, b = p.elements(t), pk.ic2par(p.eph(t), 3.0)
    if not np.allclose(a, b, rtol=1e-9):
        bad(t, a, b)
"""),
 dict(id="c30-subclass", property="C30", src="py",
  edits=[("pykep/_patch_planet.py", "type(udpla) == t", "isinstance(udpla, t)")],
  needs="extraction by a base class of the object's class",
  breaks="an object of another type than the one asked for is extracted",
  demo=UH + """
class A(U):
    pass


p = pk.planet(A())
if p.extract(U) is not None or p.is_(U) or not p.is_(A):
    bad(p.extract(U))
"""),
 dict(id="c30-owned", property="C30", src="py",
  edits=[("pykep/python_udpla.cpp", "    check_mandatory_method(m_obj, \"eph\", \"planet\");\n", "    check_mandatory_method(m_obj, \"eph\", \"planet\");\n    // Objects that can copy themselves are kept as they are now.\n    if (!callable_attribute(m_obj, \"eph_v\").is_none() && callable_attribute(m_obj, \"period\").is_none()) {\n        m_obj = pykep::deepcopy(m_obj);\n    }\n")],
  needs="an object with a grid method but none for the period, changed after it was wrapped",
  breaks="the planet does not refer to its user's object",
  demo=UH + """
class A(U):
    def eph_v(self, ts):
        return [x for t in ts for rv in self.eph(t) for x in rv]


a = A()
p = pk.planet(a)
a.n = 7.0
if p.extract(A) is not a or p.eph(0.0)[0][0] != 8.0:
    bad(p.eph(0.0))
"""),
 dict(id="c30-kep-radius", property="C30", src="py",
  edits=[("pykep/utils/_planet_to_keplerian.py", "        added_params=[pla.get_mu_self(), pla.get_radius(), pla.get_safe_radius()],\n", "        added_params=[pla.get_mu_self(), pla.get_radius(), max(pla.get_radius(), pla.get_safe_radius())],\n")],
  needs="a planet that has a radius but no safe radius (or a smaller one)",
  breaks="the Keplerian version has a safe radius its original has not",
  demo=UH + """
class A(U):
    def get_radius(self):
        return 3.0


k = pk.utils.planet_to_keplerian(pk.planet(A()), pk.epoch(3.0), 5.0)
if k.get_safe_radius() != -1 or k.get_radius() != 3.0:
    bad(k.get_safe_radius())
"""),
 dict(id="c30-tle-day", property="C30", src="py",
  edits=[("pykep/udpla/_tle.py", "        jd_is = [int(item) for item in jds]\n", "        jd_is = [int(jds[0])] * len(jds) if len(jds) > 0 and max(jds) - min(jds) < 1.0 else [int(item) for item in jds]\n        jds = sorted(jds)\n")],
  needs="a grid of times for a two-line-element planet that is not in order",
  breaks="the ephemerides are returned in another order than the times",
  demo=PH + """
u = pk.udpla.tle("1 33773U 97051L   23290.57931959  .00002095  00000+0  65841-3 0  9991", "2 33773  86.4068  33.1145 0009956 224.5064 135.5336 14.40043565770064")
p = pk.planet(u)
ts = [8710.0, 8700.25, 8705.5]
for t, row in zip(ts, p.eph_v(ts)):
    if not np.allclose(row, np.array(p.eph(t)).reshape(-1), rtol=1e-6):
        bad(t, row, p.eph(t))
"""),

 dict(id="c31-grad-alive", property="C31", src="py",
  edits=[("pykep/core.cpp", """            auto tc_python
                = py::array_t<double>(py::array::ShapeContainer{static_cast<py::ssize_t>(leg.get_nseg()),
                                                                static_cast<py::ssize_t>(leg.get_nseg() * 3)}, // shape
                                      ptr->data(), std::move(vec_caps));
            return tc_python;
        },
        pykep::leg_sf_hf_tc_grad_docstring().c_str());""", """            // A leg is asked for these over and over: one buffer is kept for them.
            static std::vector<double> buffer;
            if (buffer.size() == ptr->size()) {
                std::copy(ptr->begin(), ptr->end(), buffer.begin());
            } else {
                buffer = *ptr;
            }
            auto tc_python
                = py::array_t<double>(py::array::ShapeContainer{static_cast<py::ssize_t>(leg.get_nseg()),
                                                                static_cast<py::ssize_t>(leg.get_nseg() * 3)}, // shape
                                      buffer.data(), std::move(vec_caps));
            return tc_python;
        },
        pykep::leg_sf_hf_tc_grad_docstring().c_str());""")],
  needs="a gradient of the throttle constraints that is kept while another is computed, of high fidelity legs of the same number of segments",
  breaks="the first gradient changes: the arrays share their memory",
  demo=PH + """
a = pk.leg.sims_flanagan_hf(throttles=[0.1, 0.2, 0.3] * 2)
g = a.compute_tc_grad()
h = g.copy()
a.throttles = [0.4, 0.5, 0.6] * 2
k = a.compute_tc_grad()
if not np.array_equal(g, h) or np.array_equal(g, k):
    bad(g, h, k)
"""),
 dict(id="c31-datetime-us", property="C31", src="py",
  edits=[("pykep/core.cpp", "                 return kep3::epoch(y, m, d, h, min, s, 0, us);", "                 return kep3::epoch(y, m, d, h, min, s, us / 1000);")],
  needs="an epoch made from a datetime with microseconds",
  breaks="its microseconds are dropped",
  demo=PH + """
import datetime
t = datetime.datetime(2003, 4, 5, 6, 7, 8, 123456)
if datetime.datetime.fromisoformat(repr(pk.epoch(t))) != t:
    bad(pk.epoch(t))
"""),
 dict(id="c31-dv-names", property="C31", src="py",
  edits=[("pykep/core.cpp", """          py::overload_cast<const std::array<double, 3> &, const std::array<double, 3> &, double, double>(&kep3::fb_dv),
          py::arg("v_rel_in"), py::arg("v_rel_out"), py::arg("mu"), py::arg("safe_radius"));""", """          py::overload_cast<const std::array<double, 3> &, const std::array<double, 3> &, double, double>(&kep3::fb_dv),
          py::arg("v_rel_in"), py::arg("v_rel_out"), py::arg("safe_radius"), py::arg("mu"));""")],
  needs="fb_dv called with the numbers of the planet by name",
  breaks="gravity parameter and radius are exchanged",
  demo=PH + """
a, b = [0.3, 0.9, 0.1], [-0.5, 0.4, 0.6]
x, y = pk.fb_dv(a, b, 1.5, 0.7), pk.fb_dv(v_rel_in=a, v_rel_out=b, mu=1.5, safe_radius=0.7)
if x != y:
    bad(x, y)
"""),
 dict(id="c31-var-rows", property="C31", src="py",
  edits=[("pykep/core.cpp", """                    py::array::ShapeContainer{static_cast<py::ssize_t>(7), static_cast<py::ssize_t>(3)}, // shape
                    ptr2->data(), std::move(vec_caps2));""", """                    py::array::ShapeContainer{static_cast<py::ssize_t>(7), static_cast<py::ssize_t>(3)}, // shape
                    py::array::StridesContainer{static_cast<py::ssize_t>(sizeof(double)), static_cast<py::ssize_t>(7 * sizeof(double))},
                    ptr2->data(), std::move(vec_caps2));""")],
  needs="the sensitivities of a Stark propagation to the thrust, in Python",
  breaks="they are laid out by columns where the numbers are by rows",
  demo=PH + """
sp = pk.stark_problem(1.0, 2.0, 1e-16)
x, u = [1.0, 0.1, 0.2, 0.1, 1.0, 0.1, 1.5], [0.02, -0.01, 0.03]
_, P, U = sp.propagate_var(x, u, 1.2)
h = 1e-5
for j in range(3):
    a, b = [np.array(sp.propagate(x, [q + s * (i == j) for i, q in enumerate(u)], 1.2)) for s in (h, -h)]
    if np.abs((a - b) / (2 * h) - U[:, j]).max() > 1e-6:
        bad(j, U)
"""),
 dict(id="c31-deep-lambert", property="C31", src="py",
  edits=[("pykep/core.cpp", """        .def("__deepcopy__", &pykep::generic_deepcopy_wrapper<kep3::lambert_problem>)
""", """        .def("__deepcopy__", [](const kep3::lambert_problem &lp, const py::dict &) {
            return kep3::lambert_problem(lp.get_r0(), lp.get_r1(), lp.get_tof(), lp.get_mu(), false, lp.get_Nmax());
        })
""")],
  needs="a deep copy of a clockwise Lambert problem",
  breaks="the copy turns the other way",
  demo=PH + """
p = pk.lambert_problem(cw=True, tof=9.0, multi_revs=1)
q = copy.deepcopy(p)
if p.v0 != q.v0 or p.v1 != q.v1:
    bad(p.v0, q.v0)
"""),
 dict(id="c31-default-cut", property="C31", src="py",
  edits=[("pykep/core.cpp", """        py::arg("tof") = kep3::pi / 2, py::arg("max_thrust") = 1., py::arg("isp") = 1., py::arg("mu") = 1,
        py::arg("cut") = 0.5);
    // repr().
    sims_flanagan_hf""", """        py::arg("tof") = kep3::pi / 2, py::arg("max_thrust") = 1., py::arg("isp") = 1., py::arg("cut") = 0.5,
        py::arg("mu") = 1.);
    // repr().
    sims_flanagan_hf""")],
  needs="a high fidelity leg constructed with mu or cut by name, or with one of them left out",
  breaks="the gravity parameter and the cut are exchanged",
  demo=PH + """
a = pk.leg.sims_flanagan_hf(mu=0.9)
if a.mu != 0.9 or a.cut != 0.5:
    bad(a.mu, a.cut)
"""),

 dict(id="c29-stale-tof", property="C29", src="py",
  edits=[(PL2, "        rf, vf = self.plf.eph(x[0] + x[-1])\n", "        rf, vf = self.plf.eph(x[0] + self.leg.tof * _pk.SEC2DAY)\n")],
  needs="two decision vectors with different times of flight asked one after the other",
  breaks="the arrival planet is taken where it was for the previous vector",
  demo=PH + """
u = pk.trajopt.direct_pl2pl(nseg=3)
x = [6750.0, 1400.0, 0, 0, 0, 0, 0, 0] + [0.2, 0.1, 0.3] * 3
a = u.fitness(x + [210.0])
a = u.fitness(x + [210.0])
u.fitness(x + [290.0])
b = u.fitness(x + [210.0])
if max(abs(a - b)) > 0:
    bad(a, b)
"""),
 dict(id="c29-grad-departure", property="C29", src="py",
  edits=[(PL2, """                - _np.dot(mcg_xf[i, 3:6], rf) * self.leg.mu / (_np.linalg.norm(rf) ** 3)
            )  # here""", """                - _np.dot(mcg_xf[i, 3:6], rf) * self.leg.mu / (_np.linalg.norm(rs) ** 3)
            )  # here""")],
  needs="the derivative with respect to the departure epoch, for planets at different distances",
  breaks="the acceleration of the arrival planet is computed with the distance of the departure planet",
  demo=PH + """
u = pk.trajopt.direct_pl2pl(nseg=2)
x = [6750.0, 1400.0, 0, 0, 0, 0, 0, 0] + [0.2, 0.1, 0.3] * 2 + [210.0]
g = dict(zip(map(tuple, u.gradient_sparsity()), u.gradient(x)))
y, z = list(x), list(x)
y[0], z[0] = 6750.5, 6749.5
for i in range(1, 7):
    d = u.fitness(y)[i] - u.fitness(z)[i]
    if abs(g[i, 0] - d) > 3e-4:
        bad(i, g[i, 0], d)
"""),
 dict(id="c29-vinf-arrival", property="C29", src="py",
  edits=[(PL2, "            + [-self.vinff] * 3  # in m/s.\n", "            + [-self.vinfs] * 3  # in m/s.\n")],
  needs="different excess velocities allowed at departure and arrival",
  breaks="lower bounds of the arrival velocity are those of the departure",
  demo=PH + """
u = pk.trajopt.direct_pl2pl(vinfs=3.0, vinff=1.0)
lb, ub = u.get_bounds()
if lb[5:8] != [-1000.0] * 3 or ub[5:8] != [1000.0] * 3:
    bad(lb[5:8], ub[5:8])
"""),
 dict(id="c29-sparse-throttle", property="C29", src="py",
  edits=[(P2P, """        for i in range(1, 8):
            for j in range(dim):
                retval.append([i, j])
""", """        for i in range(1, 7):
            for j in range(dim):
                retval.append([i, j])
        # the mass is lost where the engine pushes
        retval.extend([[7, j] for j in range(dim) if j > 0] + [[7, 0]])
""")],
  needs="the gradient of the mass constraint, matched to its sparsity",
  breaks="the sparsity is complete, in another order than the gradient's numbers",
  demo=PH + """
u = pk.trajopt.direct_point2point(nseg=2)
x = [700.0] + [0.2, 0.1, 0.3] * 2 + [210.0]
g = dict(zip(map(tuple, u.gradient_sparsity()), u.gradient(x)))
y = list(x)
y[0] += 1.0
d = u.fitness(y)[7] - u.fitness(x)[7]
if abs(g[7, 0] - d) > 1e-7:
    bad(g[7, 0], d)
"""),
 dict(id="c29-scale-shared", property="C29", src="py",
  edits=[(P2P, "            retval.extend(mcg_th_tof[i, :] / self.v_scaling)\n", "            retval.extend(mcg_th_tof[i, :] / (self.r_scaling / _pk.AU * _pk.EARTH_VELOCITY))\n")],
  needs="a problem with scalings other than the default ones",
  breaks="velocity derivatives are scaled by a velocity derived from the distance scale",
  demo=PH + """
u = pk.trajopt.direct_point2point(nseg=2, v_scaling=1000.0)
x = [700.0] + [0.2, 0.1, 0.3] * 2 + [210.0]
g = dict(zip(map(tuple, u.gradient_sparsity()), u.gradient(x)))
y, z = list(x), list(x)
y[1], z[1] = 0.201, 0.199
for i in (4, 5, 6):
    d = (u.fitness(y)[i] - u.fitness(z)[i]) / 0.002
    if abs(g[i, 1] - d) > 1e-4 * max(1, abs(d)):
        bad(i, g[i, 1], d)
"""),
 dict(id="c29-arrival-allowance", property="C29", src="py",
  edits=[(PL2, "            (x[5] ** 2 + x[6] ** 2 + x[7] ** 2 - self.vinff**2) / (self.v_scaling**2)\n", "            (x[5] ** 2 + x[6] ** 2 + x[7] ** 2 - max(self.vinff, 1.0)**2) / (self.v_scaling**2) if self.vinff < self.vinfs else (x[5] ** 2 + x[6] ** 2 + x[7] ** 2 - self.vinfs**2) / (self.v_scaling**2)\n")],
  needs="more velocity allowed at arrival than at departure",
  breaks="the arrival constraint uses the departure allowance",
  demo=PH + """
u = pk.trajopt.direct_pl2pl(nseg=2, vinfs=1.0, vinff=2.0)
x = [6750.0, 1400.0, 0, 0, 0, 1500.0, 0, 0] + [0.2, 0.1, 0.3] * 2 + [210.0]
if u.fitness(x)[-1] > 0:
    bad(u.fitness(x)[-1])
"""),

 dict(id="c32-arc-backward", property="C32", src="py",
  edits=[(PLB, "    dt = tof / (N - 1)\n", "    dt = abs(tof) / (N - 1)\n")],
  needs="an arc flown backward in time",
  breaks="it is drawn forward: backward segments of legs appear on the other side of their start",
  demo=AXH + """
pk.plot.add_ballistic_arc(ax, [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], -1.0, 1.0, units=1.0, N=3)
if ax.calls[0][1][1][-1] > 0:
    bad(ax.calls)
"""),
 dict(id="c32-half-turn", property="C32", src="py",
  edits=[(PLL, "    if sol == 0:\n", "    if sol == 0 or _np.dot(r0, r1) > 0:\n")],
  needs="a multi-revolution solution between close directions",
  breaks="only the last arc is drawn, not the whole orbit flown",
  demo=AXH + """
lp = pk.lambert_problem([1.0, 0.0, 0.0], [0.5, 1.1, 0.1], 30.0, 1.0, False, 2)
pk.plot.add_lambert(ax, lp, sol=1, N=5, units=1.0)
x, y, z = ax.calls[0][1][:3]
if abs(x[-1] - 1.0) > 1e-9 or abs(y[-1]) > 1e-9:
    bad(x, y)
"""),
 dict(id="c32-range-offset", property="C32", src="py",
  edits=[(PLP, "        epochs = _np.linspace(0.0, T, N)\n", "        epochs = _np.linspace(0.0, T, N, endpoint=False)\n")],
  needs="an orbit drawn over its own period",
  breaks="the orbit is left open",
  demo=AXH + """
pl = pk.planet(pk.udpla.keplerian(pk.epoch(0.0), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], 1.0))
pk.plot.add_planet_orbit(ax, pl, units=1.0, N=9)
x, y, z = ax.calls[0][1][:3]
if abs(x[-1] - x[0]) > 1e-9:
    bad(x)
"""),
 dict(id="c32-mass-held", property="C32", src="py",
  edits=[(PLS, "        mass_bck *= _np.exp(dv / sf.isp / _pk.G0)\n", "        mass_bck *= _np.exp(dv / _pk.G0 / max(sf.isp, 100.0))\n")],
  needs="a leg of small specific impulse (non-dimensional units) with two backward segments or more",
  breaks="masses along the backward half are wrong, and so are the pushes drawn from",
  demo=AXH + """
import math
leg = pk.leg.sims_flanagan(rvs=[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], ms=1.0, throttles=[0.5, 0.0, 0.0] * 2, rvf=[[0.0, 1.2, 0.0], [-0.9, 0.0, 0.0]], mf=0.8, tof=1.5, max_thrust=0.4, isp=0.1, mu=1.0, cut=0.0)
pk.plot.add_sf_leg(ax, leg, units=1.0, N=2, show_gridpoints=True)
rv, m = [[0.0, 1.2, 0.0], [-0.9, 0.0, 0.0]], 0.8
for i in range(2):
    rv = [list(y) for y in pk.propagate_lagrangian(rv, tof=-0.375, mu=1.0, stm=False)]
    dv = 0.4 * 0.75 / m * 0.5
    rv[1][0] -= dv
    m *= math.exp(dv / (0.1 * pk.G0))
    rv = [list(y) for y in pk.propagate_lagrangian(rv, tof=-0.375, mu=1.0, stm=False)]
g = [c for c in ax.calls if any(isinstance(x, str) for x in c[1])][-1][1]
if abs(g[0][-1] - rv[0][0]) > 1e-9:
    bad(g[0][-1], rv[0][0])
"""),
 dict(id="c32-backward-order", property="C32", src="py",
  edits=[(PLS, "        throttles = sf.throttles[nseg * 3 - 3 - 3 * i : nseg * 3 - 3 * i]\n", "        throttles = sf.throttles[nseg_fwd * 3 + 3 * i : nseg_fwd * 3 + 3 * i + 3]\n")],
  needs="two backward segments or more with different throttles",
  breaks="the backward half is flown with its throttles in the wrong order",
  demo=AXH + """
leg = pk.leg.sims_flanagan(rvs=[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], ms=1.0, throttles=[0.5, 0.0, 0.0, 0.0, 0.0, 0.9], rvf=[[0.0, 1.2, 0.0], [-0.9, 0.0, 0.0]], mf=0.8, tof=1.5, max_thrust=0.4, isp=1.0, mu=1.0, cut=0.0)
pk.plot.add_sf_leg(ax, leg, units=1.0, N=2, show_throttles=True)
q = [c for c in ax.calls if c[0] == "quiver" and len(c[1][0])][-1][1]
if abs(q[5][0] - 0.9) > 1e-12:
    bad(q)
"""),
 dict(id="c32-legs-selected", property="C32", src="py",
  edits=[(MG, "                _pk.plot.add_lambert(ax, lps[leg_id], N = N, sol = 0, units=units, c=c, **kwargs)\n", "                _pk.plot.add_lambert(ax, lps[leg_id], N = N, sol = lps[leg_id].Nmax, units=units, c=c, **kwargs)\n"),
         (MG, "        if len(leg_ids) == 0:\n            for lp in lps:\n", "        if len(leg_ids) == 0 or len(leg_ids) >= len(lps):\n            for lp in lps:\n")],
  needs="as many legs selected as there are, with one of them twice",
  breaks="all the legs are drawn instead of those selected",
  demo=AXH + """
u = pk.trajopt.mga()
u.plot([100.0, 150.0, 220.0], ax=ax, leg_ids=[1, 1], N=7, label="leg")
n = [c for c in ax.calls if c[2].get("label") == "leg"]
if not np.allclose(n[0][1][0], n[1][1][0]):
    bad("two different legs")
"""),
 dict(id="c32-arrival-epoch", property="C32", src="py",
  edits=[(PL2, "        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1], units=units)\n", "        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[1], units=units)\n")],
  needs="the plot of a planet-to-planet transfer",
  breaks="the arrival planet is shown where it is after as many days as the final mass has kilograms",
  demo=AXH + """
u = pk.trajopt.direct_pl2pl(nseg=2)
import pykep.plot as plo
seen = []
real = plo.add_planet
plo.add_planet = lambda ax, pla, when, **k: (seen.append(when), ax)[1]
orb = plo.add_planet_orbit
plo.add_planet_orbit = lambda ax, pla, **k: ax
leg = plo.add_sf_leg
plo.add_sf_leg = lambda ax, *a, **k: ax
u.plot([6750.0, 1400.0, 0, 0, 0, 0, 0, 0] + [0.1, 0.2, 0.3] * 2 + [210.0], ax=ax)
if 6960.0 not in seen:
    bad(seen)
"""),
 dict(id="c32-uranus", property="C32", src="py",
  edits=[(PLP, "        _pk.plot.add_planet(ax, uranus, when=when, c=\"slateblue\", s=s[7], label = \"Uranus\")\n", "        _pk.plot.add_planet(ax, uranus, when=when, c=\"slateblue\", s=s[-1], label = \"Uranus\")\n")],
  needs="sizes that differ for Uranus and Neptune",
  breaks="Uranus has Neptune's size",
  demo=AXH + """
pk.plot.add_solar_system(ax, bodies=[7], s=[1, 2, 3, 4, 5, 6, 7, 8, 9])
k = [c[2]["s"] for c in ax.calls if c[0] == "scatter"]
if k != [1, 8]:
    bad(k)
"""),
]
