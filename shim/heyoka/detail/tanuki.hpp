// Stand-in for heyoka's type-erasure library (not installed here), covering what kep3::planet uses of it:
// value semantics, the reference interface, value access and serialisation of the wrapped object.
#pragma once
#include <concepts>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>

#include <boost/serialization/access.hpp>
#include <boost/serialization/assume_abstract.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/tracking.hpp>
#include <boost/serialization/unique_ptr.hpp>

namespace tanuki
{

struct no_ref_iface {
    template <typename>
    struct impl {
    };
};

template <typename DefaultValueType = void, typename RefIFace = no_ref_iface>
struct config {
    using default_value_type = DefaultValueType;
    using ref_iface = RefIFace;
    unsigned static_size = 48;
    unsigned static_align = 8;
    bool pointer_interface = true;
    bool invalid_default_ctor = false;
};

template <typename IFace>
struct value_iface : IFace {
    [[nodiscard]] virtual std::unique_ptr<value_iface> _tanuki_clone() const = 0;
    [[nodiscard]] virtual std::type_index _tanuki_type() const noexcept = 0;
    [[nodiscard]] virtual const void *_tanuki_value() const noexcept = 0;
    [[nodiscard]] void *_tanuki_value() noexcept
    {
        return const_cast<void *>(static_cast<const value_iface *>(this)->_tanuki_value());
    }
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};

template <typename T, typename IFace>
struct holder final : IFace::template impl<value_iface<IFace>, holder<T, IFace>, T> {
    T m_value;
    holder() : m_value() {}
    template <typename U>
        requires(!std::same_as<std::remove_cvref_t<U>, holder>)
    explicit holder(U &&x) : m_value(std::forward<U>(x))
    {
    }
    holder(const holder &) = default;
    [[nodiscard]] std::unique_ptr<value_iface<IFace>> _tanuki_clone() const final
    {
        return std::make_unique<holder>(m_value);
    }
    [[nodiscard]] std::type_index _tanuki_type() const noexcept final
    {
        return typeid(T);
    }
    [[nodiscard]] const void *_tanuki_value() const noexcept final
    {
        return std::addressof(m_value);
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &boost::serialization::base_object<value_iface<IFace>>(*this);
        ar &m_value;
    }
};

template <typename Holder, typename B>
const auto &getval(const B *p) noexcept
{
    return static_cast<const Holder *>(p)->m_value;
}
template <typename Holder, typename B>
auto &getval(B *p) noexcept
    requires(!std::is_const_v<B>)
{
    return static_cast<Holder *>(p)->m_value;
}
template <typename Holder, typename B>
auto &getval(B &p) noexcept
{
    return getval<Holder>(std::addressof(p));
}

template <typename IFace, auto Cfg>
class wrap : public decltype(Cfg)::ref_iface::template impl<wrap<IFace, Cfg>>
{
    using cfg_t = std::remove_cvref_t<decltype(Cfg)>;
    std::unique_ptr<value_iface<IFace>> m_p;

    template <typename T>
    static constexpr bool wrappable = requires { typename IFace::template impl<value_iface<IFace>, holder<T, IFace>, T>; };

    friend class boost::serialization::access;
    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        const value_iface<IFace> *p = m_p.get();
        ar << p;
    }
    template <typename Archive>
    void load(Archive &ar, unsigned)
    {
        value_iface<IFace> *p = nullptr;
        ar >> p;
        m_p.reset(p);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

public:
    wrap() : m_p(std::make_unique<holder<typename cfg_t::default_value_type, IFace>>()) {}
    wrap(const wrap &o) : m_p(o.m_p ? o.m_p->_tanuki_clone() : nullptr) {}
    wrap(wrap &&o) noexcept = default;
    template <typename T>
        requires(!std::same_as<std::remove_cvref_t<T>, wrap>) && wrappable<std::remove_cvref_t<T>>
    explicit wrap(T &&x) : m_p(std::make_unique<holder<std::remove_cvref_t<T>, IFace>>(std::forward<T>(x)))
    {
    }
    wrap &operator=(const wrap &o)
    {
        if (this != &o) m_p = o.m_p ? o.m_p->_tanuki_clone() : nullptr;
        return *this;
    }
    wrap &operator=(wrap &&) noexcept = default;
    template <typename T>
        requires(!std::same_as<std::remove_cvref_t<T>, wrap>) && wrappable<std::remove_cvref_t<T>>
    wrap &operator=(T &&x)
    {
        m_p = std::make_unique<holder<std::remove_cvref_t<T>, IFace>>(std::forward<T>(x));
        return *this;
    }
    ~wrap() = default;

    friend IFace *iface_ptr(wrap &w) noexcept
    {
        return w.m_p.get();
    }
    friend const IFace *iface_ptr(const wrap &w) noexcept
    {
        return w.m_p.get();
    }
    [[nodiscard]] friend bool is_invalid(const wrap &w) noexcept
    {
        return !w.m_p;
    }
    [[nodiscard]] friend bool is_valid(const wrap &w) noexcept
    {
        return static_cast<bool>(w.m_p);
    }
    [[nodiscard]] friend std::type_index value_type_index(const wrap &w) noexcept
    {
        return w.m_p->_tanuki_type();
    }
    friend void swap(wrap &a, wrap &b) noexcept
    {
        a.m_p.swap(b.m_p);
    }
    [[nodiscard]] const void *_raw() const noexcept
    {
        return static_cast<const value_iface<IFace> *>(m_p.get())->_tanuki_value();
    }
    [[nodiscard]] void *_raw() noexcept
    {
        return m_p->_tanuki_value();
    }
};

template <typename T, typename IFace, auto Cfg>
const T *value_ptr(const wrap<IFace, Cfg> &w) noexcept
{
    return value_type_index(w) == typeid(T) ? static_cast<const T *>(w._raw()) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
T *value_ptr(wrap<IFace, Cfg> &w) noexcept
{
    return value_type_index(w) == typeid(T) ? static_cast<T *>(w._raw()) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
bool value_isa(const wrap<IFace, Cfg> &w) noexcept
{
    return value_ptr<T>(w) != nullptr;
}
template <typename T, typename IFace, auto Cfg>
const T &value_ref(const wrap<IFace, Cfg> &w)
{
    auto *p = value_ptr<T>(w);
    if (!p) throw std::bad_cast();
    return *p;
}

} // namespace tanuki

#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                  \
    template <typename JustWrap = Wrap, typename... Args>                                                              \
    auto name(Args &&...args) & -> decltype(iface_ptr(*static_cast<JustWrap *>(this))->name(std::forward<Args>(args)...)) \
    {                                                                                                                  \
        return iface_ptr(*static_cast<Wrap *>(this))->name(std::forward<Args>(args)...);                               \
    }                                                                                                                  \
    template <typename JustWrap = Wrap, typename... Args>                                                              \
    auto name(Args &&...args)                                                                                          \
        const & -> decltype(iface_ptr(*static_cast<const JustWrap *>(this))->name(std::forward<Args>(args)...))        \
    {                                                                                                                  \
        return iface_ptr(*static_cast<const Wrap *>(this))->name(std::forward<Args>(args)...);                         \
    }                                                                                                                  \
    template <typename JustWrap = Wrap, typename... Args>                                                              \
    auto name(Args &&...args) && -> decltype(iface_ptr(*static_cast<JustWrap *>(this))->name(std::forward<Args>(args)...)) \
    {                                                                                                                  \
        return iface_ptr(*static_cast<Wrap *>(this))->name(std::forward<Args>(args)...);                               \
    }

#define TANUKI_S11N_WRAP_EXPORT_KEY(ud_type, ...)                                                                      \
    namespace boost::serialization                                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct guid_defined<tanuki::holder<ud_type, __VA_ARGS__>> : boost::mpl::true_ {                                    \
    };                                                                                                                 \
    template <>                                                                                                        \
    inline const char *guid<tanuki::holder<ud_type, __VA_ARGS__>>()                                                    \
    {                                                                                                                  \
        return "tanuki::" #__VA_ARGS__ "@" #ud_type;                                                                   \
    }                                                                                                                  \
    template <>                                                                                                        \
    struct tracking_level<tanuki::holder<ud_type, __VA_ARGS__>> {                                                      \
        using tag = mpl::integral_c_tag;                                                                               \
        using type = mpl::int_<track_never>;                                                                           \
        static constexpr int value = track_never;                                                                      \
    };                                                                                                                 \
    }

#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(ud_type, ...)                                                                \
    namespace boost::archive::detail::extra_detail                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct init_guid<tanuki::holder<ud_type, __VA_ARGS__>> {                                                           \
        static guid_initializer<tanuki::holder<ud_type, __VA_ARGS__>> const &g;                                        \
    };                                                                                                                 \
    guid_initializer<tanuki::holder<ud_type, __VA_ARGS__>> const &init_guid<tanuki::holder<ud_type, __VA_ARGS__>>::g   \
        = ::boost::serialization::singleton<guid_initializer<tanuki::holder<ud_type, __VA_ARGS__>>>::                  \
              get_mutable_instance()                                                                                   \
                  .export_guid();                                                                                      \
    }

#define TANUKI_S11N_WRAP_EXPORT(ud_type, ...)                                                                          \
    TANUKI_S11N_WRAP_EXPORT_KEY(ud_type, __VA_ARGS__)                                                                  \
    TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(ud_type, __VA_ARGS__)
