#include "planet_types.hpp"
#include <boost/core/demangle.hpp>
namespace pt
{
namespace
{
template <int K>
bool one(int t, const Data &d, kep3::planet &p, std::string &nm)
{
    if (t != K * NPARTS + PART) return false;
    if constexpr (K * NPARTS + PART < NTYPES) {
        p = kep3::planet{U<K * NPARTS + PART>{d}};
        nm = boost::core::demangle(typeid(U<K * NPARTS + PART>).name());
        return true;
    }
    return false;
}
template <int... K>
bool all(int t, const Data &d, kep3::planet &p, std::string &nm, std::integer_sequence<int, K...>)
{
    return (one<K>(t, d, p, nm) || ...);
}
} // namespace
bool MAKE(int t, const Data &d, kep3::planet &p, std::string &nm)
{
    return all(t, d, p, nm, std::make_integer_sequence<int, (NTYPES + NPARTS - 1) / NPARTS>{});
}
} // namespace pt
