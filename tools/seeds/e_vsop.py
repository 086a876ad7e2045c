VS = "src/udpla/vsop2013.cpp"
VH = """#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/vsop2013.hpp>
#include <thread>
#include <memory>
using V = kep3::udpla::vsop2013;
"""
S = [
 dict(id="c28-unlocked", property="C28", src="vsop", flags="-fsanitize=thread",
  edits=[(VS, "    // Lock down for access to the cache.\n    std::lock_guard lock(detail::state_dict_mutex);\n\n    if (auto it", "    // Lock down for access to the cache.\n    std::unique_lock lock(detail::state_dict_mutex);\n\n    if (auto it"),
         (VS, "        s.compile();\n", "        // Compiling is slow: let the others go on.\n        lock.unlock();\n        s.compile();\n"),
         (VS, "    } else {\n        // Cache hit, build the impl from the cache content.\n", "    } else {\n        // Cache hit, build the impl from the cache content.\n        lock.unlock();\n")],
  needs="two threads making planets for different bodies at once",
  breaks="the insertion into the shared map races with lookups",
  demo=VH + """
int main()
{
    std::vector<std::thread> th;
    for (int t = 0; t < 4; ++t)
        th.emplace_back([t] { for (int i = 0; i < 60; ++i) V("mars", 1e-5 * (1 + 4 * i + t)); });
    for (auto &t : th) t.join();
}
"""),
 dict(id="c28-pointer", property="C28", src="vsop",
  edits=[(VS, "        : m_state(other.m_state), m_mu(other.m_mu), m_pl_name(other.m_pl_name), m_thresh(other.m_thresh)\n    {\n        eval_f = reinterpret_cast<fptr_t>(m_state.jit_lookup(\"eval_f\"));\n    }",
              "        : m_state(other.m_state), eval_f(other.eval_f), m_mu(other.m_mu), m_pl_name(other.m_pl_name), m_thresh(other.m_thresh)\n    {\n    }")],
  needs="a copy that outlives the planet it was copied from",
  breaks="the copy runs code that is gone",
  flags="-fsanitize=address",
  demo=VH + """
int main()
{
    auto a = std::make_unique<V>("venus", 1e-3);
    const auto r = a->eph(100.);
    const V b(*a);
    a.reset();
    for (int i = 0; i < 20; ++i) V("mars", 1. / (2 + i)).eph(1.);
    if (b.eph(100.) != r) BAD("%g %g", b.eph(100.)[0][0], r[0][0]);
}
"""),
 dict(id="c28-key", property="C28", src="vsop",
  edits=[(VS, "    // Lock down for access to the cache.\n", "    // Thresholds below the working accuracy all give the same series.\n    const auto key = std::max(thresh, 1e-9);\n\n    // Lock down for access to the cache.\n"),
         (VS, "detail::state_dict.find({pl_index, thresh})", "detail::state_dict.find({pl_index, key})"),
         (VS, "insert({{pl_index, thresh}, s})", "insert({{pl_index, key}, s})")],
  needs="a body made with a threshold below 1e-9 after one made with another such threshold",
  breaks="it answers for the threshold of the earlier one",
  demo=VH + """
int main()
{
    const V a("saturn", 1e-9), b("saturn", 0.), c("saturn", 1e-12);
    if (a.eph(3.) == b.eph(3.)) BAD("same as the coarse one");
    if (b.eph(3.) == c.eph(3.)) BAD("same as the coarse one");
}
"""),
 dict(id="c28-restored", property="C28", src="vsop",
  edits=[(VS, "        ar >> m_thresh;\n\n        eval_f = reinterpret_cast<fptr_t>(m_state.jit_lookup(\"eval_f\"));", "        ar >> m_thresh;\n\n        if (eval_f == nullptr) {\n            eval_f = reinterpret_cast<fptr_t>(m_state.jit_lookup(\"eval_f\"));\n        }"),
         (VS, "    ar << m_impl;\n", "    ar << *m_impl;\n"),
         (VS, "        ar >> m_impl;\n", "        ar >> *m_impl;\n")],
  needs="a planet restored from an archive over one of another body",
  breaks="it keeps running the code compiled for the body it replaced",
  demo=VH + """
int main()
{
    const kep3::planet a(V("neptune", 1e-4));
    kep3::planet b;
    std::stringstream ss;
    { boost::archive::binary_oarchive oa(ss); oa << a; }
    { boost::archive::binary_iarchive ia(ss); ia >> b; }
    if (b.eph(10.) != a.eph(10.)) BAD("%g %g", b.eph(10.)[0][0], a.eph(10.)[0][0]);
    if (b.get_name() != a.get_name()) BAD("%s", b.get_name().c_str());
}
"""),
]
