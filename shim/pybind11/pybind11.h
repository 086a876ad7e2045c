// Stand-in for the part of pybind11 that pykep uses (pybind11 itself is not installed here). Overloads are resolved as pybind11
// documents it: in the order of definition, first without implicit conversions, then with them.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <structmember.h>

#include <array>
#include <chrono>
#include <cstddef>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace pybind11
{
using ssize_t = Py_ssize_t;
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

class object;
class accessor;
class tuple;
template <typename T> T cast(const object &);
template <typename T> object cast_to(T &&, return_value_policy = return_value_policy::automatic, PyObject *parent = nullptr);

class error_already_set : public std::exception
{
    std::shared_ptr<std::array<PyObject *, 3>> e;
public:
    error_already_set() : e(new std::array<PyObject *, 3>{}, [](auto *p) { PyGILState_STATE s = PyGILState_Ensure(); for (auto *x : *p) Py_XDECREF(x); PyGILState_Release(s); delete p; }) { PyErr_Fetch(&(*e)[0], &(*e)[1], &(*e)[2]); }
    void restore() { PyErr_Restore((*e)[0], (*e)[1], (*e)[2]); e->fill(nullptr); }
    const char *what() const noexcept override { return "a Python exception"; }
};
class cast_error : public std::runtime_error
{
public:
    using std::runtime_error::runtime_error;
};
struct type_miss : std::exception { std::string w; explicit type_miss(std::string s) : w(std::move(s)) {} const char *what() const noexcept override { return w.c_str(); } };

struct borrowed {};
struct stolen {};
class object
{
protected:
    PyObject *p = nullptr;
public:
    object() = default;
    object(PyObject *x, borrowed) : p(x) { Py_XINCREF(p); }
    object(PyObject *x, stolen) : p(x) { if (!p) throw error_already_set(); }
    object(const object &o) : p(o.p) { Py_XINCREF(p); }
    object(object &&o) noexcept : p(o.p) { o.p = nullptr; }
    object &operator=(object o) noexcept { std::swap(p, o.p); return *this; }
    ~object() { Py_XDECREF(p); }
    PyObject *ptr() const { return p; }
    PyObject *release() { auto *q = p; p = nullptr; return q; }
    explicit operator bool() const { return p; }
    bool is_none() const { return p == Py_None; }
    bool equal(const object &o) const { const int r = PyObject_RichCompareBool(p, o.p, Py_EQ); if (r < 0) throw error_already_set(); return r; }
    accessor attr(const char *) const;
    template <typename... A> object operator()(A &&...) const;
    template <typename T> T cast() const { return pybind11::cast<T>(*this); }
};
inline object steal(PyObject *x) { return object(x, stolen{}); }
inline object borrow(PyObject *x) { return object(x, borrowed{}); }
class accessor
{
    object o;
    std::string k;
    object get() const { return steal(PyObject_GetAttrString(o.ptr(), k.c_str())); }
public:
    accessor(object x, std::string s) : o(std::move(x)), k(std::move(s)) {}
    operator object() const { return get(); }
    template <typename T> T cast() const { return get().template cast<T>(); }
    template <typename... A> object operator()(A &&...a) const { return get()(std::forward<A>(a)...); }
    accessor attr(const char *s) const { return get().attr(s); }
    bool is_none() const { return get().is_none(); }
    template <typename T> void operator=(T &&v) &&
    {
        object x = cast_to(std::forward<T>(v));
        if (PyObject_SetAttrString(o.ptr(), k.c_str(), x.ptr()) != 0) throw error_already_set();
    }
};
inline accessor object::attr(const char *s) const { return accessor(*this, s); }
class none : public object { public: none() : object(Py_None, borrowed{}) {} };
class float_ : public object { public: explicit float_(double x) : object(PyFloat_FromDouble(x), stolen{}) {} };
class str : public object { public: explicit str(const object &o) : object(PyObject_Str(o.ptr()), stolen{}) {} };
class bytes : public object { public: explicit bytes(const std::string &s) : object(PyBytes_FromStringAndSize(s.data(), static_cast<ssize_t>(s.size())), stolen{}) {} };
class dict : public object { public: dict() : object(PyDict_New(), stolen{}) {} explicit dict(const object &o) : object(o) {} };
class tuple : public object
{
public:
    tuple() : object(PyTuple_New(0), stolen{}) {}
    explicit tuple(const object &o) : object(o) {}
    object operator[](std::size_t i) const { auto *q = PyTuple_GetItem(p, static_cast<ssize_t>(i)); if (!q) throw error_already_set(); return borrow(q); }
    std::size_t size() const { return static_cast<std::size_t>(PyTuple_GET_SIZE(p)); }
};
class capsule : public object
{
    struct held { void *v; void (*d)(void *); };
public:
    capsule(void *v, void (*d)(void *)) : object(PyCapsule_New(new held{v, d}, nullptr, [](PyObject *c) { auto *h = static_cast<held *>(PyCapsule_GetPointer(c, nullptr)); h->d(h->v); delete h; }), stolen{}) {}
};
class module_ : public object
{
public:
    module_() = default;
    explicit module_(const object &o) : object(o) {}
    static module_ import(const char *n) { return module_(steal(PyImport_ImportModule(n))); }
    accessor doc() const { return attr("__doc__"); }
    template <typename F, typename... X> module_ &def(const char *name, F &&f, const X &...x);
};
using module = module_;
class options { public: options &disable_function_signatures() { return *this; } };
inline std::size_t len(const object &o) { const auto n = PyObject_Length(o.ptr()); if (n < 0) throw error_already_set(); return static_cast<std::size_t>(n); }
inline bool hasattr(const object &o, const char *s) { return PyObject_HasAttrString(o.ptr(), s) == 1; }
inline bool isinstance(const object &o, const object &t) { const int r = PyObject_IsInstance(o.ptr(), t.ptr()); if (r < 0) throw error_already_set(); return r; }
// Arrays are made and read through numpy itself.
inline object numpy() { return module_::import("numpy"); }
class array : public object
{
public:
    using ShapeContainer = std::vector<ssize_t>;
    using StridesContainer = std::vector<ssize_t>;
    using object::object;
    array() = default;
    ssize_t size() const { return number("size"); }
    ssize_t ndim() const { return number("ndim"); }
    ssize_t nbytes() const { return number("nbytes"); }
    ssize_t itemsize() const { return number("itemsize"); }
    ssize_t shape(ssize_t k) const { return PyLong_AsSsize_t(tuple(attr("shape"))[static_cast<std::size_t>(k)].ptr()); }
    ssize_t strides(ssize_t k) const { return PyLong_AsSsize_t(tuple(attr("strides"))[static_cast<std::size_t>(k)].ptr()); }
protected:
    ssize_t number(const char *what) const { return PyLong_AsSsize_t(object(attr(what)).ptr()); }
};
template <typename T> class array_t : public array
{
public:
    using value_type = T;
    array_t() : array_t(0) {}
    explicit array_t(const object &o) : array(o.ptr(), borrowed{}) {}
    array_t(const ShapeContainer &s, const StridesContainer &st, const T *d, const object &base)
    {
        static_assert(std::is_same_v<T, double>);
        // (a view on the memory the base keeps alive, as in pybind11)
        static object holder = make_holder();
        object h = holder(reinterpret_cast<std::size_t>(d), base, s, st);
        p = h.release();
    }
    array_t(const ShapeContainer &s, const T *d, const object &base) : array_t(s, rows(s), d, base) {}
    // (without a base: a copy)
    array_t(const ShapeContainer &s, const StridesContainer &st, const T *d) : array_t(s, st, d, object(Py_None, borrowed{})) { own(); }
    array_t(const ShapeContainer &s, const T *d) : array_t(s, rows(s), d) {}
    explicit array_t(const ShapeContainer &s)
    {
        object h = numpy().attr("zeros")(s);
        p = h.release();
    }
    explicit array_t(ssize_t n) : array_t(ShapeContainer{n}) {}
    array_t(ssize_t n, const T *d) : array_t(ShapeContainer{n}, d) {}
    array_t(ssize_t n, const T *d, const object &base) : array_t(ShapeContainer{n}, d, base) {}
    array_t reshape(const ShapeContainer &s) const { return array_t(object(attr("reshape")(s))); }
    T *mutable_data() { return at0(); }
    const T *data() const { return at0(); }
    template <typename... I> T &mutable_at(I... i) { return *at(i...); }
    template <typename... I> const T &at_(I... i) const { return *at(i...); }
private:
    T *at0() const { return reinterpret_cast<T *>(PyLong_AsSize_t(object(object(attr("ctypes")).attr("data")).ptr())); }
    template <typename... I> T *at(I... i) const
    {
        ssize_t off = 0, k = 0;
        ((off += static_cast<ssize_t>(i) * strides(k++)), ...);
        return reinterpret_cast<T *>(reinterpret_cast<char *>(at0()) + off);
    }
    void own()
    {
        object h = numpy().attr("array")(*this);
        Py_XDECREF(p);
        p = h.release();
    }
    static StridesContainer rows(const ShapeContainer &s)
    {
        StridesContainer r(s.size(), sizeof(T));
        for (std::size_t k = s.size(); k-- > 1;) r[k - 1] = r[k] * s[k];
        return r;
    }
    static object make_holder()
    {
        object g = steal(PyDict_New());
        object r = steal(PyRun_String("import numpy\nclass _kept:\n    pass\n"
                                      "def make(p, base, shape, strides):\n    k = _kept()\n    k.kept = base\n"
                                      "    if 0 in shape:\n        return numpy.zeros(shape)\n"
                                      "    k.__array_interface__ = {'version': 3, 'shape': tuple(shape), 'strides': tuple(strides), 'typestr': '<f8', 'data': (p, False)}\n"
                                      "    return numpy.asarray(k)\n", Py_file_input, g.ptr(), g.ptr()));
        return borrow(PyDict_GetItemString(g.ptr(), "make"));
    }
};

namespace detail
{
struct inst {
    PyObject_HEAD
    void *v;
    bool owned;
    PyObject *parent;
    PyObject *dict;
};
struct type_info {
    PyTypeObject *t = nullptr;
    void (*del)(void *) = nullptr;
};
inline std::unordered_map<std::type_index, type_info> &registry() { static std::unordered_map<std::type_index, type_info> r; return r; }
inline void inst_dealloc(PyObject *o)
{
    auto *i = reinterpret_cast<inst *>(o);
    PyTypeObject *t = Py_TYPE(o);
    for (PyTypeObject *b = t; b; b = b->tp_base)
        for (auto &[k, ti] : registry()) if (ti.t == b) { if (i->owned && i->v) ti.del(i->v); i->v = nullptr; }
    Py_XDECREF(i->parent);
    Py_XDECREF(i->dict);
    t->tp_free(o);
    Py_DECREF(t);
}
inline PyObject *inst_new(PyTypeObject *t, PyObject *, PyObject *) { return t->tp_alloc(t, 0); }
inline int inst_init(PyObject *o, PyObject *, PyObject *) { PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(o)->tp_name); return -1; }
template <typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <typename T, typename = void> struct caster {
    T *v = nullptr;
    bool load(PyObject *o, bool)
    {
        auto it = registry().find(typeid(T));
        if (it == registry().end() || !PyObject_TypeCheck(o, it->second.t)) return false;
        v = static_cast<T *>(reinterpret_cast<inst *>(o)->v);
        return v != nullptr;
    }
    T &get() { return *v; }
    template <typename U> static PyObject *out(U &&x, return_value_policy, PyObject *)
    {
        return own(new T(std::forward<U>(x)));
    }
    static PyObject *own(T *x) { return wrap(x, true, nullptr); }
    static PyObject *wrap(T *x, bool owned, PyObject *parent)
    {
        auto it = registry().find(typeid(T));
        if (it == registry().end()) {
            if (owned) delete x;
            throw type_miss(std::string("Unable to convert function return value to a Python type: ") + typeid(T).name());
        }
        auto *o = reinterpret_cast<inst *>(it->second.t->tp_alloc(it->second.t, 0));
        o->v = x;
        o->owned = owned;
        o->parent = parent;
        Py_XINCREF(parent);
        return reinterpret_cast<PyObject *>(o);
    }
};
template <typename T> struct value_caster { T v{}; T &get() { return v; } };
template <> struct caster<bool> : value_caster<bool> {
    bool load(PyObject *o, bool conv)
    {
        if (o == Py_True || o == Py_False) { v = o == Py_True; return true; }
        const bool npb = std::strncmp(Py_TYPE(o)->tp_name, "numpy.bool", 10) == 0;
        if (!conv && !npb) return false;
        if (o == Py_None) { v = false; return true; }
        if (!Py_TYPE(o)->tp_as_number || !Py_TYPE(o)->tp_as_number->nb_bool) return false;
        const int r = Py_TYPE(o)->tp_as_number->nb_bool(o);
        if (r < 0) { PyErr_Clear(); return false; }
        v = r;
        return true;
    }
    static PyObject *out(bool x, return_value_policy, PyObject *) { return PyBool_FromLong(x); }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> : value_caster<T> {
    bool load(PyObject *o, bool conv)
    {
        if (!conv && !PyFloat_Check(o)) return false;
        double x = PyFloat_AsDouble(o);
        if (x == -1 && PyErr_Occurred()) {
            PyErr_Clear();
            if (!conv || !PyNumber_Check(o)) return false;
            PyObject *t = PyNumber_Float(o);
            if (!t) { PyErr_Clear(); return false; }
            x = PyFloat_AS_DOUBLE(t);
            Py_DECREF(t);
        }
        this->v = x;
        return true;
    }
    static PyObject *out(T x, return_value_policy, PyObject *) { return PyFloat_FromDouble(x); }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> : value_caster<T> {
    bool load(PyObject *o, bool conv)
    {
        if (PyFloat_Check(o)) return false;
        if (!conv && !PyLong_Check(o) && !PyIndex_Check(o)) return false;
        PyObject *i = PyNumber_Index(o);
        if (!i) {
            PyErr_Clear();
            if (!conv || !PyNumber_Check(o)) return false;
            i = PyNumber_Long(o);
            if (!i) { PyErr_Clear(); return false; }
        }
        bool ok = true;
        if (std::is_signed_v<T>) {
            const long long x = PyLong_AsLongLong(i);
            ok = !(x == -1 && PyErr_Occurred()) && x == static_cast<long long>(static_cast<T>(x));
            this->v = static_cast<T>(x);
        } else {
            const unsigned long long x = PyLong_AsUnsignedLongLong(i);
            ok = !PyErr_Occurred() && x == static_cast<unsigned long long>(static_cast<T>(x));
            this->v = static_cast<T>(x);
        }
        PyErr_Clear();
        Py_DECREF(i);
        return ok;
    }
    static PyObject *out(T x, return_value_policy, PyObject *) { return std::is_signed_v<T> ? PyLong_FromLongLong(static_cast<long long>(x)) : PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(x)); }
};
template <> struct caster<std::string> : value_caster<std::string> {
    bool load(PyObject *o, bool)
    {
        if (PyUnicode_Check(o)) {
            ssize_t n = 0;
            const char *s = PyUnicode_AsUTF8AndSize(o, &n);
            if (!s) { PyErr_Clear(); return false; }
            v.assign(s, static_cast<std::size_t>(n));
            return true;
        }
        if (PyBytes_Check(o)) { v.assign(PyBytes_AS_STRING(o), static_cast<std::size_t>(PyBytes_GET_SIZE(o))); return true; }
        return false;
    }
    static PyObject *out(const std::string &x, return_value_policy, PyObject *) { return object(PyUnicode_DecodeUTF8(x.data(), static_cast<ssize_t>(x.size()), nullptr), stolen{}).release(); }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_base_of_v<object, T>>> {
    T v;
    bool load(PyObject *o, bool)
    {
        if constexpr (std::is_same_v<T, tuple>) { if (!PyTuple_Check(o)) return false; }
        if constexpr (std::is_same_v<T, dict>) { if (!PyDict_Check(o)) return false; }
        if constexpr (std::is_same_v<T, array_t<double>>) {
            v = T(numpy().attr("asarray")(borrow(o), numpy().attr("float64")));
            return true;
        } else {
            v = T(borrow(o));
            return true;
        }
    }
    T &get() { return v; }
    static PyObject *out(const object &x, return_value_policy, PyObject *) { return object(x).release(); }
};
template <> struct caster<accessor> { static PyObject *out(const accessor &x, return_value_policy, PyObject *) { return object(x).release(); } };
template <typename L> bool load_items(PyObject *o, L f)
{
    if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
    const ssize_t n = PySequence_Size(o);
    if (n < 0) { PyErr_Clear(); return false; }
    for (ssize_t i = 0; i < n; ++i) {
        PyObject *x = PySequence_GetItem(o, i);
        if (!x) throw error_already_set();
        const bool ok = f(static_cast<std::size_t>(i), static_cast<std::size_t>(n), x);
        Py_DECREF(x);
        if (!ok) return false;
    }
    return true;
}
template <typename R> PyObject *out_items(const R &r)
{
    PyObject *l = PyList_New(static_cast<ssize_t>(r.size()));
    ssize_t i = 0;
    for (const auto &x : r) PyList_SET_ITEM(l, i++, (caster<bare<decltype(x)>>::out(x, return_value_policy::copy, nullptr)));
    return l;
}
template <typename T, std::size_t N> struct caster<std::array<T, N>> : value_caster<std::array<T, N>> {
    bool load(PyObject *o, bool conv)
    {
        if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o) || PySequence_Size(o) != static_cast<ssize_t>(N)) { PyErr_Clear(); return false; }
        return load_items(o, [&](std::size_t i, std::size_t, PyObject *x) { caster<T> c; if (!c.load(x, conv)) return false; this->v[i] = c.get(); return true; });
    }
    static PyObject *out(const std::array<T, N> &x, return_value_policy, PyObject *) { return out_items(x); }
};
template <typename T> struct caster<std::vector<T>> : value_caster<std::vector<T>> {
    bool load(PyObject *o, bool conv)
    {
        this->v.clear();
        return load_items(o, [&](std::size_t, std::size_t, PyObject *x) { caster<T> c; if (!c.load(x, conv)) return false; this->v.push_back(c.get()); return true; });
    }
    static PyObject *out(const std::vector<T> &x, return_value_policy, PyObject *) { return out_items(x); }
};
template <typename A, typename B> struct caster<std::pair<A, B>> {
    static PyObject *out(const std::pair<A, B> &x, return_value_policy p, PyObject *q)
    {
        object a = steal(caster<A>::out(x.first, p, q)), b = steal(caster<B>::out(x.second, p, q));
        return PyTuple_Pack(2, a.ptr(), b.ptr());
    }
};
template <typename... A> struct caster<std::tuple<A...>> {
    static PyObject *out(const std::tuple<A...> &x, return_value_policy p, PyObject *q)
    {
        PyObject *t = PyTuple_New(sizeof...(A));
        std::apply([&](const auto &...y) { ssize_t i = 0; (PyTuple_SET_ITEM(t, i++, (caster<bare<decltype(y)>>::out(y, p, q))), ...); }, x);
        return t;
    }
};
template <typename T> struct caster<std::optional<T>> {
    static PyObject *out(const std::optional<T> &x, return_value_policy p, PyObject *q) { if (!x) Py_RETURN_NONE; return caster<T>::out(*x, p, q); }
};
template <typename... A> struct caster<std::variant<A...>> {
    std::optional<std::variant<A...>> v;
    std::variant<A...> &get() { return *v; }
    template <typename T> bool one(PyObject *o, bool conv) { caster<T> c; if (!c.load(o, conv)) return false; v = std::variant<A...>(std::in_place_type<T>, c.get()); return true; }
    bool load(PyObject *o, bool conv) { return (one<A>(o, false) || ...) || (conv && (one<A>(o, true) || ...)); }
};
template <typename R, typename P> struct caster<std::chrono::duration<R, P>> : value_caster<std::chrono::duration<R, P>> {
    bool load(PyObject *o, bool)
    {
        using secs = std::chrono::duration<double>;
        if (PyFloat_Check(o)) { this->v = std::chrono::duration_cast<std::chrono::duration<R, P>>(secs(PyFloat_AsDouble(o))); return true; }
        object td = module_::import("datetime").attr("timedelta");
        if (!isinstance(borrow(o), td)) return false;
        using days = std::chrono::duration<int, std::ratio<86400>>;
        auto f = [&](const char *n) { return borrow(o).attr(n).template cast<int>(); };
        this->v = std::chrono::duration_cast<std::chrono::duration<R, P>>(days(f("days")) + std::chrono::seconds(f("seconds")) + std::chrono::microseconds(f("microseconds")));
        return true;
    }
};
template <> struct caster<const char *> { static PyObject *out(const char *x, return_value_policy, PyObject *) { return PyUnicode_FromString(x); } };
template <std::size_t N> struct caster<char[N]> : caster<const char *> {};
template <typename T> struct caster<T *> {
    static PyObject *out(T *x, return_value_policy p, PyObject *parent)
    {
        if (!x) Py_RETURN_NONE;
        if (p == return_value_policy::reference_internal) return caster<bare<T>>::wrap(const_cast<bare<T> *>(x), false, parent);
        return caster<bare<T>>::own(const_cast<bare<T> *>(x));
    }
};
struct no_kw {};
} // namespace detail
template <typename T> object cast_to(T &&x, return_value_policy p, PyObject *q) { return steal(detail::caster<detail::bare<T>>::out(std::forward<T>(x), p, q)); }
template <typename T> T cast(const object &o)
{
    detail::caster<T> c;
    if (!c.load(o.ptr(), true)) throw cast_error("Unable to cast Python instance of type " + std::string(Py_TYPE(o.ptr())->tp_name) + " to C++ type");
    return c.get();
}
template <typename... A> tuple make_tuple(A &&...a)
{
    object t = steal(PyTuple_New(sizeof...(A)));
    ssize_t i = 0;
    (PyTuple_SET_ITEM(t.ptr(), i++, cast_to(std::forward<A>(a)).release()), ...);
    return tuple(t);
}
template <typename... A> object object::operator()(A &&...a) const
{
    tuple t = pybind11::make_tuple(std::forward<A>(a)...);
    return steal(PyObject_CallObject(p, t.ptr()));
}

struct arg_v { std::string name; object def; };
struct arg {
    std::string name;
    explicit arg(const char *n) : name(n) {}
    template <typename T> arg_v operator=(T &&x) const { return arg_v{name, cast_to(std::forward<T>(x))}; }
};

namespace detail
{
struct record {
    std::string name;
    std::vector<arg_v> args;
    std::size_t n = 0;
    bool ctor = false;
    return_value_policy pol = return_value_policy::automatic;
    std::function<bool(const std::vector<object> &, bool, PyObject **)> call;
    PyMethodDef def{};
};
struct chain { std::vector<record> r; std::string name; PyMethodDef def{}; };
inline void translate()
{
    try { throw; }
    catch (error_already_set &e) { e.restore(); }
    catch (const type_miss &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (const std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (const std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::overflow_error &e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
    catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs)
{
    try {
        auto *c = static_cast<chain *>(PyCapsule_GetPointer(self, nullptr));
        const auto na = static_cast<std::size_t>(PyTuple_GET_SIZE(args));
        for (int pass = c->r.size() > 1 ? 0 : 1; pass < 2; ++pass)
            for (auto &r : c->r) {
                if (na > r.n) continue;
                std::vector<object> a(r.n);
                for (std::size_t i = 0; i < na; ++i) a[i] = borrow(PyTuple_GET_ITEM(args, static_cast<ssize_t>(i)));
                bool ok = true;
                ssize_t used = 0;
                // (r.args holds the named arguments, without self)
                const std::size_t off = r.n - r.args.size();
                for (std::size_t i = na; i < r.n && ok; ++i) {
                    if (i < off) { ok = false; break; }
                    const auto &v = r.args[i - off];
                    PyObject *k = kwargs ? PyDict_GetItemString(kwargs, v.name.c_str()) : nullptr;
                    if (k) { a[i] = borrow(k); ++used; }
                    else if (v.def) a[i] = v.def;
                    else ok = false;
                }
                if (!ok || (kwargs && used != PyDict_Size(kwargs))) continue;
                PyObject *res = nullptr;
                if (r.call(a, pass == 1, &res)) return res;
            }
        std::string m = c->name + "(): incompatible function arguments.";
        PyErr_SetString(PyExc_TypeError, m.c_str());
        return nullptr;
    } catch (...) { translate(); }
    return nullptr;
}
template <typename F> struct sig : sig<decltype(&F::operator())> {};
template <typename R, typename... A> struct sig<R (*)(A...)> { using type = R(A...); };
template <typename R, typename... A> struct sig<R (*)(A...) noexcept> { using type = R(A...); };
template <typename R, typename C, typename... A> struct sig<R (C::*)(A...)> { using type = R(A...); };
template <typename R, typename C, typename... A> struct sig<R (C::*)(A...) const> { using type = R(A...); };
template <typename R, typename C, typename... A> struct sig<R (C::*)(A...) noexcept> { using type = R(A...); };
template <typename R, typename C, typename... A> struct sig<R (C::*)(A...) const noexcept> { using type = R(A...); };
inline void extra(record &, const char *) {}
inline void extra(record &r, const arg &a) { r.args.push_back({a.name, {}}); }
inline void extra(record &r, const arg_v &a) { r.args.push_back(a); }
inline void extra(record &r, return_value_policy p) { r.pol = p; }
template <typename R, typename... A, typename F, std::size_t... I>
bool invoke(const std::vector<object> &a, bool conv, PyObject **res, return_value_policy pol, F &f, std::index_sequence<I...>, R (*)(A...))
{
    std::tuple<caster<bare<A>>...> c;
    if (!(std::get<I>(c).load(a[I].ptr(), conv) && ...)) return false;
    if constexpr (std::is_void_v<R>) {
        f(static_cast<A>(std::get<I>(c).get())...);
        Py_INCREF(Py_None);
        *res = Py_None;
    } else {
        *res = caster<bare<R>>::out(f(static_cast<A>(std::get<I>(c).get())...), pol, a.empty() ? nullptr : a[0].ptr());
        if (!*res) throw error_already_set();
    }
    return true;
}
template <typename R, typename... A, typename F, typename... X> record make_record(const char *name, F f, R (*s)(A...), const X &...x)
{
    record r;
    r.name = name;
    r.n = sizeof...(A);
    (extra(r, x), ...);
    r.call = [f, s, pol = r.pol](const std::vector<object> &a, bool conv, PyObject **res) mutable { return invoke<R, A...>(a, conv, res, pol, f, std::index_sequence_for<A...>{}, s); };
    return r;
}
// member functions take their object first
template <typename F> auto as_function(F f) { return f; }
template <typename R, typename C, typename... A> auto as_function(R (C::*f)(A...)) { return [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; }
template <typename R, typename C, typename... A> auto as_function(R (C::*f)(A...) const) { return [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; }
template <typename R, typename C, typename... A> auto as_function(R (C::*f)(A...) noexcept) { return [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; }
template <typename R, typename C, typename... A> auto as_function(R (C::*f)(A...) const noexcept) { return [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; }
template <typename F, typename... X> record record_of(const char *name, F &&f, const X &...x)
{
    auto g = as_function(std::decay_t<F>(std::forward<F>(f)));
    using S = typename sig<decltype(g)>::type;
    return make_record(name, std::move(g), static_cast<S *>(nullptr), x...);
}
inline std::unordered_map<PyObject *, chain *> &functions() { static std::unordered_map<PyObject *, chain *> f; return f; }
inline object new_function(record r, const char *doc, const std::string &where)
{
    auto *c = new chain;
    c->name = r.name;
    c->r.push_back(std::move(r));
    c->def = {c->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch)), METH_VARARGS | METH_KEYWORDS, doc};
    object cap = steal(PyCapsule_New(c, nullptr, nullptr)), mod = steal(PyUnicode_FromString(where.c_str()));
    object f = steal(PyCFunction_NewEx(&c->def, cap.ptr(), mod.ptr()));
    functions()[f.ptr()] = c;
    Py_INCREF(f.ptr()); // functions live as long as the module
    return f;
}
inline const char *doc_of() { return ""; }
template <typename... X> const char *doc_of(const char *d, const X &...) { static std::vector<std::string *> keep; keep.push_back(new std::string(d)); return keep.back()->c_str(); }
template <typename T, typename... X> const char *doc_of(const T &, const X &...x) { return doc_of(x...); }
} // namespace detail

template <typename F, typename... X> module_ &module_::def(const char *name, F &&f, const X &...x)
{
    auto r = detail::record_of(name, std::forward<F>(f), x...);
    PyObject *d = PyModule_GetDict(p);
    if (PyObject *old = PyDict_GetItemString(d, name)) {
        detail::functions().at(old)->r.push_back(std::move(r));
        return *this;
    }
    object fn = detail::new_function(std::move(r), detail::doc_of(x...), PyModule_GetName(p));
    PyDict_SetItemString(d, name, fn.ptr());
    return *this;
}

struct dynamic_attr {};
template <typename... A> struct init_t {};
template <typename F> struct init_f { F f; };
template <typename G, typename S> struct pickle_t { G g; S s; };
template <typename... A> init_t<A...> init() { return {}; }
template <typename F> init_f<std::decay_t<F>> init(F &&f) { return {std::forward<F>(f)}; }
template <typename G, typename S> pickle_t<std::decay_t<G>, std::decay_t<S>> pickle(G &&g, S &&s) { return {std::forward<G>(g), std::forward<S>(s)}; }
template <typename... A> struct overload_cast_t {
    template <typename R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <typename R, typename C> constexpr auto operator()(R (C::*f)(A...)) const { return f; }
};
template <typename... A> inline constexpr overload_cast_t<A...> overload_cast{};

namespace detail
{
inline PyTypeObject *new_type(const object &scope, const char *name, const char *doc)
{
    std::string mod = PyModule_Check(scope.ptr()) ? std::string(PyModule_GetName(scope.ptr())) : scope.attr("__module__").template cast<std::string>();
    auto *full = new std::string(mod + "." + name);
    static PyMemberDef members[] = {{"__dictoffset__", T_PYSSIZET, offsetof(inst, dict), READONLY, nullptr}, {nullptr, 0, 0, 0, nullptr}};
    PyType_Slot slots[] = {{Py_tp_dealloc, reinterpret_cast<void *>(inst_dealloc)}, {Py_tp_new, reinterpret_cast<void *>(inst_new)}, {Py_tp_init, reinterpret_cast<void *>(inst_init)},
                           {Py_tp_members, members}, {Py_tp_doc, const_cast<char *>(doc)}, {0, nullptr}};
    PyType_Spec spec{full->c_str(), sizeof(inst), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    object t = steal(PyType_FromSpec(&spec));
    if (PyObject_SetAttrString(scope.ptr(), name, t.ptr()) != 0) throw error_already_set();
    return reinterpret_cast<PyTypeObject *>(t.release());
}
template <typename T> void destroy(void *p) { delete static_cast<T *>(p); }
} // namespace detail

template <typename T> class class_ : public object
{
    std::string where;
    std::unordered_map<std::string, std::pair<PyObject *, detail::chain *>> own;
    void put(const std::string &name, const object &x) { if (PyObject_SetAttrString(p, name.c_str(), x.ptr()) != 0) throw error_already_set(); }
    static std::unordered_map<std::string, detail::chain *> &chains() { static std::unordered_map<std::string, detail::chain *> c; return c; }
    void add(detail::record r, const char *doc)
    {
        const std::string name = r.name;
        if (auto it = chains().find(name); it != chains().end()) { it->second->r.push_back(std::move(r)); return; }
        object f = detail::new_function(std::move(r), doc, where);
        chains()[name] = detail::functions().at(f.ptr());
        put(name, steal(PyInstanceMethod_New(f.ptr())));
    }
    // the value of an instance is made in place
    template <typename R, typename... A, typename F, typename... X> void add_init(const char *name, F f, R (*)(A...), const X &...x)
    {
        detail::record r;
        r.name = name;
        r.n = sizeof...(A) + 1;
        (detail::extra(r, x), ...);
        r.call = [f](const std::vector<object> &a, bool conv, PyObject **res) mutable { return build<A...>(f, a, conv, res, std::index_sequence_for<A...>{}); };
        add(std::move(r), detail::doc_of(x...));
    }
    template <typename... A, typename F, std::size_t... I> static bool build(F &f, const std::vector<object> &a, bool conv, PyObject **res, std::index_sequence<I...>)
    {
        auto it = detail::registry().find(typeid(T));
        if (!PyObject_TypeCheck(a[0].ptr(), it->second.t)) return false;
        std::tuple<detail::caster<detail::bare<A>>...> c;
        if (!(std::get<I>(c).load(a[I + 1].ptr(), conv) && ...)) return false;
        T *v = f(static_cast<A>(std::get<I>(c).get())...);
        auto *i = reinterpret_cast<detail::inst *>(a[0].ptr());
        if (i->owned && i->v) delete static_cast<T *>(i->v);
        i->v = v;
        i->owned = true;
        Py_INCREF(Py_None);
        *res = Py_None;
        return true;
    }
public:
    class_(const object &scope, const char *name, const char *doc = "") { make(scope, name, doc); }
    class_(const object &scope, const char *name, dynamic_attr, const char *doc = "") { make(scope, name, doc); }
    class_(const object &scope, const char *name, const std::string &doc) { make(scope, name, doc.c_str()); }
    void make(const object &scope, const char *name, const char *doc)
    {
        auto *t = detail::new_type(scope, name, doc);
        detail::registry()[typeid(T)] = {t, detail::destroy<T>};
        static_cast<object &>(*this) = borrow(reinterpret_cast<PyObject *>(t));
        where = attr("__module__").template cast<std::string>();
    }
    template <typename F, typename... X> class_ &def(const char *name, F &&f, const X &...x) { add(detail::record_of(name, std::forward<F>(f), x...), detail::doc_of(x...)); return *this; }
    template <typename... A, typename... X> class_ &def(init_t<A...>, const X &...x)
    {
        add_init("__init__", [](A... a) { return new T(std::forward<A>(a)...); }, static_cast<T *(*)(A...)>(nullptr), x...);
        return *this;
    }
    template <typename F, typename... X> class_ &def(init_f<F> i, const X &...x)
    {
        using S = typename detail::sig<F>::type;
        def_init_f(i.f, static_cast<S *>(nullptr), x...);
        return *this;
    }
    template <typename F, typename R, typename... A, typename... X> void def_init_f(F f, R (*)(A...), const X &...x)
    {
        add_init("__init__", [f](A... a) { return new T(f(std::forward<A>(a)...)); }, static_cast<R (*)(A...)>(nullptr), x...);
    }
    template <typename G, typename S> class_ &def(pickle_t<G, S> k)
    {
        def("__getstate__", k.g);
        add_init("__setstate__", [s = k.s](const tuple &t) { return new T(s(t)); }, static_cast<T *(*)(const tuple &)>(nullptr));
        return *this;
    }
    template <typename F, typename... X> class_ &def_static(const char *name, F &&f, const X &...x)
    {
        object fn = detail::new_function(detail::record_of(name, std::forward<F>(f), x...), detail::doc_of(x...), where);
        put(name, steal(PyStaticMethod_New(fn.ptr())));
        return *this;
    }
    template <typename G, typename... X> class_ &def_property_readonly(const char *name, G &&g, const X &...x) { return prop(name, detail::record_of(name, std::forward<G>(g)), {}, detail::doc_of(x...)); }
    template <typename G, typename S, typename... X> class_ &def_property(const char *name, G &&g, S &&s, const X &...x)
    {
        object set = detail::new_function(detail::record_of(name, std::forward<S>(s)), "", where);
        return prop(name, detail::record_of(name, std::forward<G>(g)), set, detail::doc_of(x...));
    }
    class_ &prop(const char *name, detail::record g, const object &set, const char *doc)
    {
        object get = detail::new_function(std::move(g), "", where);
        object pr = module_::import("builtins").attr("property");
        put(name, pr(get, set ? set : object(none()), none(), std::string(doc)));
        return *this;
    }
};
template <typename E> class enum_ : public class_<E>
{
    object scope;
    std::vector<std::pair<std::string, object>> vals;
public:
    enum_(const object &s, const char *name, const char *doc = "") : class_<E>(s, name, doc), scope(s)
    {
        this->def("__int__", [](const E &e) { return static_cast<long long>(e); });
        this->def("__hash__", [](const E &e) { return static_cast<long long>(e); });
        this->def("__eq__", [](const object &a, const object &b) { return Py_TYPE(a.ptr()) == Py_TYPE(b.ptr()) && a.cast<E>() == b.cast<E>(); });
        this->def("__ne__", [](const object &a, const object &b) { return !(Py_TYPE(a.ptr()) == Py_TYPE(b.ptr()) && a.cast<E>() == b.cast<E>()); });
        this->def_property_readonly("value", [](const E &e) { return static_cast<long long>(e); });
    }
    enum_ &value(const char *n, E e, const char * = "")
    {
        object o = steal(detail::caster<E>::own(new E(e)));
        if (PyObject_SetAttrString(this->ptr(), n, o.ptr()) != 0 || PyObject_SetAttrString(o.ptr(), "name", cast_to(std::string(n)).ptr()) != 0) throw error_already_set();
        vals.emplace_back(n, o);
        return *this;
    }
    enum_ &export_values() { for (auto &[n, o] : vals) if (PyObject_SetAttrString(scope.ptr(), n.c_str(), o.ptr()) != 0) throw error_already_set(); return *this; }
};

namespace detail
{
template <typename R, typename... A> struct each_of {
    static object each(const std::vector<object> &in, R (*g)(A...))
    {
        object np = numpy();
        object t = steal(PyTuple_New(static_cast<ssize_t>(in.size())));
        bool scalars = true;
        for (std::size_t i = 0; i < in.size(); ++i) {
            object a = np.attr("asarray")(in[i], np.attr("float64"));
            scalars = scalars && a.attr("ndim").template cast<int>() == 0;
            PyTuple_SET_ITEM(t.ptr(), static_cast<ssize_t>(i), a.release());
        }
        object b = steal(PyObject_CallObject(object(np.attr("broadcast_arrays")).ptr(), t.ptr()));
        std::vector<std::vector<double>> x;
        object shape;
        for (std::size_t i = 0; i < in.size(); ++i) {
            object e = steal(PySequence_GetItem(b.ptr(), static_cast<ssize_t>(i)));
            shape = e.attr("shape");
            x.push_back(object(e.attr("flatten")()).attr("tolist")().template cast<std::vector<double>>());
        }
        std::vector<double> r;
        for (std::size_t j = 0; j < x[0].size(); ++j) r.push_back(at(g, x, j, std::index_sequence_for<A...>{}));
        if (scalars) return cast_to(r[0]);
        return object(np.attr("array")(r, np.attr("float64"))).attr("reshape")(shape);
    }
    template <std::size_t... I> static double at(R (*g)(A...), const std::vector<std::vector<double>> &x, std::size_t j, std::index_sequence<I...>) { return g(x[I][j]...); } };
} // namespace detail
// functions of numbers over arrays, broadcast as numpy does
template <typename R, typename... A> auto vectorize(R (*f)(A...))
{
    using S = detail::each_of<R, A...>;
    if constexpr (sizeof...(A) == 1) return [f](const object &a) { return S::each({a}, f); };
    else return [f](const object &a, const object &b) { return S::each({a, b}, f); };
}
} // namespace pybind11

#define PYBIND11_MODULE(name, m)                                                                                                            \
    static void pybind_fill_##name(pybind11::module_ &);                                                                                    \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                                             \
    {                                                                                                                                       \
        static PyModuleDef def{PyModuleDef_HEAD_INIT, "pykep." #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};            \
        try {                                                                                                                               \
            pybind11::module_ mod(pybind11::steal(PyModule_Create(&def)));                                                                  \
            pybind_fill_##name(mod);                                                                                                        \
            return mod.release();                                                                                                           \
        } catch (...) { pybind11::detail::translate(); }                                                                                    \
        return nullptr;                                                                                                                     \
    }                                                                                                                                       \
    void pybind_fill_##name(pybind11::module_ &m)
