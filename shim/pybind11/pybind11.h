// Minimal stand-in for the parts of pybind11 that pyBBN's collision-integral
// extensions use.  The upstream submodule is empty in this sandbox; this header
// lets the repository's own C++ compile unmodified into a CPython extension.
#pragma once
#ifndef PY_SSIZE_T_CLEAN
#define PY_SSIZE_T_CLEAN
#endif
#include <Python.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

// ---------------------------------------------------------------- objects
struct error_already_set : std::exception {
    const char *what() const noexcept override { return "python error set"; }
};
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };

class handle {
protected:
    PyObject *p_ = nullptr;
public:
    handle() = default;
    handle(PyObject *p) : p_(p) {}
    PyObject *ptr() const { return p_; }
    explicit operator bool() const { return p_ != nullptr; }
};
class object : public handle {
public:
    object() = default;
    object(const object &o) : handle(o.p_) { Py_XINCREF(p_); }
    object(object &&o) noexcept { p_ = o.p_; o.p_ = nullptr; }
    object &operator=(object o) { std::swap(p_, o.p_); return *this; }
    ~object() { Py_XDECREF(p_); }
    static object steal(PyObject *p) { object o; o.p_ = p; return o; }
    static object borrow(PyObject *p) { object o; o.p_ = p; Py_XINCREF(p); return o; }
    PyObject *release() { PyObject *r = p_; p_ = nullptr; return r; }
};
struct none : object { none() { Py_INCREF(Py_None); p_ = Py_None; } };

namespace detail {
template <typename T> struct remove_cvref {
    using type = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
};
template <typename T> using bare = typename remove_cvref<T>::type;

// ------------------------------------------------------------ registered types
struct instance { PyObject_HEAD; void *value; void (*destroy)(void *); };
inline std::unordered_map<std::type_index, PyTypeObject *> &registry() {
    static std::unordered_map<std::type_index, PyTypeObject *> r; return r;
}
inline std::unordered_map<std::type_index, PyObject *> &enum_registry() {
    static std::unordered_map<std::type_index, PyObject *> r; return r;
}

template <typename T, typename = void> struct caster {           // registered class
    using type = T;
    static T &load(PyObject *o) {
        auto it = registry().find(std::type_index(typeid(T)));
        if (it == registry().end() || !PyObject_TypeCheck(o, it->second))
            throw cast_error("incompatible function arguments");
        void *v = ((instance *)o)->value;
        if (!v) throw cast_error("uninitialised instance");
        return *(T *)v;
    }
    static PyObject *cast(const T &v) {
        auto it = registry().find(std::type_index(typeid(T)));
        if (it == registry().end()) throw cast_error("unregistered type");
        instance *self = (instance *)it->second->tp_alloc(it->second, 0);
        self->value = new T(v);
        self->destroy = [](void *p) { delete (T *)p; };
        return (PyObject *)self;
    }
};
template <typename T> struct caster<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static T load(PyObject *o) {
        long v = PyLong_AsLong(o);
        if (v == -1 && PyErr_Occurred()) { PyErr_Clear(); throw cast_error("enum expected"); }
        return (T)v;
    }
    static PyObject *cast(T v) {
        auto it = enum_registry().find(std::type_index(typeid(T)));
        PyObject *n = PyLong_FromLong((long)v);
        if (it == enum_registry().end()) return n;
        PyObject *r = PyObject_CallFunctionObjArgs(it->second, n, nullptr);
        Py_DECREF(n);
        return r;
    }
};
template <typename T>
struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static T load(PyObject *o) {
        double v = PyFloat_AsDouble(o);
        if (v == -1.0 && PyErr_Occurred()) { PyErr_Clear(); throw cast_error("float expected"); }
        return (T)v;
    }
    static PyObject *cast(T v) { return PyFloat_FromDouble((double)v); }
};
template <> struct caster<bool> {
    static bool load(PyObject *o) {
        int v = PyObject_IsTrue(o);
        if (v < 0) { PyErr_Clear(); throw cast_error("bool expected"); }
        return v != 0;
    }
    static PyObject *cast(bool v) { return PyBool_FromLong(v); }
};
template <typename T>
struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static T load(PyObject *o) {
        if (PyFloat_Check(o)) throw cast_error("int expected, got float");
        PyObject *n = PyNumber_Index(o);
        if (!n) { PyErr_Clear(); throw cast_error("int expected"); }
        long long v = PyLong_AsLongLong(n);
        Py_DECREF(n);
        if (v == -1 && PyErr_Occurred()) { PyErr_Clear(); throw cast_error("int out of range"); }
        return (T)v;
    }
    static PyObject *cast(T v) { return PyLong_FromLongLong((long long)v); }
};
template <> struct caster<std::string> {
    static std::string load(PyObject *o) {
        const char *s = PyUnicode_AsUTF8(o);
        if (!s) { PyErr_Clear(); throw cast_error("str expected"); }
        return s;
    }
    static PyObject *cast(const std::string &s) { return PyUnicode_FromStringAndSize(s.data(), s.size()); }
};
struct seq {
    PyObject *fast;
    explicit seq(PyObject *o) {
        if (PyUnicode_Check(o) || PyBytes_Check(o)) throw cast_error("sequence expected");
        fast = PySequence_Fast(o, "sequence expected");
        if (!fast) { PyErr_Clear(); throw cast_error("sequence expected"); }
    }
    ~seq() { Py_DECREF(fast); }
    Py_ssize_t size() const { return PySequence_Fast_GET_SIZE(fast); }
    PyObject *operator[](Py_ssize_t i) const { return PySequence_Fast_GET_ITEM(fast, i); }
};
template <typename E> struct caster<std::vector<E>> {
    static std::vector<E> load(PyObject *o) {
        seq s(o);
        std::vector<E> out;
        out.reserve(s.size());
        for (Py_ssize_t i = 0; i < s.size(); ++i) out.push_back(caster<E>::load(s[i]));
        return out;
    }
    static PyObject *cast(const std::vector<E> &v) {
        PyObject *l = PyList_New(v.size());
        for (size_t i = 0; i < v.size(); ++i) PyList_SET_ITEM(l, i, caster<E>::cast(v[i]));
        return l;
    }
};
template <typename E, size_t N> struct caster<std::array<E, N>> {
    static std::array<E, N> load(PyObject *o) {
        seq s(o);
        if ((size_t)s.size() != N) throw cast_error("sequence of wrong length");
        std::array<E, N> out;
        for (size_t i = 0; i < N; ++i) out[i] = caster<E>::load(s[i]);
        return out;
    }
    static PyObject *cast(const std::array<E, N> &v) {
        PyObject *l = PyList_New(N);
        for (size_t i = 0; i < N; ++i) PyList_SET_ITEM(l, i, caster<E>::cast(v[i]));
        return l;
    }
};
template <typename A, typename B> struct caster<std::pair<A, B>> {
    static std::pair<A, B> load(PyObject *o) {
        seq s(o);
        if (s.size() != 2) throw cast_error("pair expected");
        return std::pair<A, B>(caster<A>::load(s[0]), caster<B>::load(s[1]));
    }
    static PyObject *cast(const std::pair<A, B> &v) {
        PyObject *t = PyTuple_New(2);
        PyTuple_SET_ITEM(t, 0, caster<A>::cast(v.first));
        PyTuple_SET_ITEM(t, 1, caster<B>::cast(v.second));
        return t;
    }
};
template <typename T> struct caster<T, typename std::enable_if<std::is_base_of<object, T>::value>::type> {
    static T load(PyObject *o) { return T::from_python(o); }
    static PyObject *cast(const T &v) { PyObject *p = v.ptr(); Py_XINCREF(p); return p; }
};
template <> struct caster<object> {
    static object load(PyObject *o) { return object::borrow(o); }
    static PyObject *cast(const object &v) { Py_XINCREF(v.ptr()); return v.ptr(); }
};

// ------------------------------------------------------------ callables
using raw_fn = std::function<PyObject *(PyObject *args, PyObject *kwargs)>;

inline void translate() {
    try { throw; }
    catch (error_already_set &) {}
    catch (cast_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (type_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (value_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (index_error &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (std::bad_alloc &) { PyErr_SetString(PyExc_MemoryError, "std::bad_alloc"); }
    catch (std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::overflow_error &e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
    catch (std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception"); }
}
inline PyObject *trampoline(PyObject *self, PyObject *args, PyObject *kwargs) {
    raw_fn *f = (raw_fn *)PyCapsule_GetPointer(self, "minipybind");
    try { return (*f)(args, kwargs); }
    catch (...) { translate(); return nullptr; }
}
}  // namespace detail

struct arg_v { std::string name; object value; bool has = false; };
struct arg {
    std::string name;
    explicit arg(const char *n) : name(n) {}
    template <typename T> arg_v operator=(T &&v) const {
        arg_v a; a.name = name; a.has = true;
        a.value = object::steal(detail::caster<detail::bare<T>>::cast(v));
        return a;
    }
    arg &noconvert(bool = true) { return *this; }
};
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }

template <typename... G> struct call_guard {};
struct gil_scoped_release {
    PyThreadState *s; gil_scoped_release() : s(PyEval_SaveThread()) {} ~gil_scoped_release() { PyEval_RestoreThread(s); }
};
struct gil_scoped_acquire {
    PyGILState_STATE s; gil_scoped_acquire() : s(PyGILState_Ensure()) {} ~gil_scoped_acquire() { PyGILState_Release(s); }
};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

namespace detail {
struct spec { std::vector<arg_v> args; };
inline void apply(spec &s, const arg &a) { arg_v v; v.name = a.name; s.args.push_back(v); }
inline void apply(spec &s, const arg_v &a) { s.args.push_back(a); }
inline void apply(spec &, const char *) {}
inline void apply(spec &, return_value_policy) {}
template <typename... G> inline void apply(spec &, const call_guard<G...> &) {}
inline void apply_all(spec &) {}
template <typename X, typename... R> void apply_all(spec &s, const X &x, const R &...r) { apply(s, x); apply_all(s, r...); }

// Collect positional+keyword arguments into n borrowed slots.
inline std::vector<PyObject *> bind(const spec &s, size_t n, PyObject *args, PyObject *kwargs) {
    std::vector<PyObject *> out(n, nullptr);
    size_t np = args ? (size_t)PyTuple_GET_SIZE(args) : 0;
    if (np > n) throw cast_error("too many arguments");
    for (size_t i = 0; i < np; ++i) out[i] = PyTuple_GET_ITEM(args, i);
    size_t used = 0, nk = kwargs ? (size_t)PyDict_Size(kwargs) : 0;
    for (size_t i = 0; i < s.args.size() && i < n; ++i) {
        PyObject *v = kwargs ? PyDict_GetItemString(kwargs, s.args[i].name.c_str()) : nullptr;
        if (v) {
            if (out[i]) throw cast_error("multiple values for argument");
            out[i] = v; ++used;
        } else if (!out[i] && s.args[i].has) out[i] = s.args[i].value.ptr();
    }
    if (used != nk) throw cast_error("unexpected keyword argument");
    for (auto p : out) if (!p) throw cast_error("missing argument");
    return out;
}
template <typename R> struct ret {
    template <typename F> static PyObject *call(F &&f) { return caster<bare<R>>::cast(f()); }
};
template <> struct ret<void> {
    template <typename F> static PyObject *call(F &&f) { f(); Py_RETURN_NONE; }
};
// Loaded argument: values are stored, references into registered instances are kept.
template <typename A> struct slot {
    using B = bare<A>;
    using L = decltype(caster<B>::load((PyObject *)nullptr));
    L v;
    explicit slot(PyObject *o) : v(caster<B>::load(o)) {}
    B &get() { return const_cast<B &>(static_cast<const B &>(v)); }
};
template <typename R, typename... A, typename F, size_t... I>
PyObject *invoke(F &f, std::vector<PyObject *> &in, std::index_sequence<I...>) {
    std::tuple<slot<A>...> slots{slot<A>(in[I])...};
    (void)slots;
    return ret<R>::call([&]() -> R { return f(static_cast<A>(std::get<I>(slots).get())...); });
}
template <typename T> struct fold_sig;
template <typename R, typename... A> struct fold_sig<R (*)(A...)> {
    template <typename F> static raw_fn make(F f, spec s) {
        return [f, s](PyObject *a, PyObject *k) mutable {
            auto in = bind(s, sizeof...(A), a, k);
            return invoke<R, A...>(f, in, std::index_sequence_for<A...>());
        };
    }
};
template <typename T> struct fold_mem;
template <typename C, typename R, typename... A> struct fold_mem<R (C::*)(A...) const> : fold_sig<R (*)(A...)> {};
template <typename C, typename R, typename... A> struct fold_mem<R (C::*)(A...)> : fold_sig<R (*)(A...)> {};

template <typename F, typename = void> struct maker {
    static raw_fn make(F f, spec s) { return fold_mem<decltype(&F::operator())>::make(f, s); }
};
template <typename R, typename... A> struct maker<R (*)(A...)> {
    static raw_fn make(R (*f)(A...), spec s) { return fold_sig<R (*)(A...)>::make(f, s); }
};
inline PyObject *function(const char *name, raw_fn f) {
    auto *def = new PyMethodDef{strdup(name), (PyCFunction)(void (*)(void))trampoline,
                                METH_VARARGS | METH_KEYWORDS, nullptr};
    PyObject *cap = PyCapsule_New(new raw_fn(std::move(f)), "minipybind", nullptr);
    PyObject *r = PyCFunction_NewEx(def, cap, nullptr);
    Py_DECREF(cap);
    return r;
}
}  // namespace detail

class module_ : public handle {
public:
    module_() = default;
    explicit module_(PyObject *m) : handle(m) {}
    template <typename F, typename... X> module_ &def(const char *name, F &&f, const X &...x) {
        detail::spec s;
        detail::apply_all(s, x...);
        using FF = typename std::decay<F>::type;
        PyObject *fn = detail::function(name, detail::maker<FF>::make(std::forward<F>(f), s));
        PyModule_AddObject(p_, name, fn);
        return *this;
    }
    const char *&doc() { static const char *d = ""; return d; }
};
using module = module_;

template <typename... A> struct init {};

template <typename T, typename... Opts> class class_ : public handle {
    PyTypeObject *type_;
    static void dealloc(PyObject *o) {
        auto *i = (detail::instance *)o;
        if (i->value && i->destroy) i->destroy(i->value);
        PyTypeObject *t = Py_TYPE(o);
        t->tp_free(o);
        Py_DECREF(t);
    }
    static std::vector<detail::raw_fn> &ctors() { static auto *c = new std::vector<detail::raw_fn>; return *c; }
    static detail::instance *&current() { static detail::instance *c; return c; }
    static int tp_init(PyObject *self, PyObject *args, PyObject *kwargs) {
        for (auto &c : ctors()) {
            current() = (detail::instance *)self;
            try { PyObject *r = c(args, kwargs); Py_XDECREF(r); return 0; }
            catch (cast_error &) { continue; }
            catch (...) { detail::translate(); return -1; }
        }
        PyErr_SetString(PyExc_TypeError, "incompatible constructor arguments");
        return -1;
    }
public:
    class_(module_ &m, const char *name, ...) {
        PyType_Slot slots[] = {{Py_tp_dealloc, (void *)dealloc}, {Py_tp_init, (void *)tp_init},
                               {Py_tp_new, (void *)PyType_GenericNew}, {0, nullptr}};
        std::string full = std::string("integral.") + name;
        PyType_Spec spec = {strdup(full.c_str()), sizeof(detail::instance), 0,
                            Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        type_ = (PyTypeObject *)PyType_FromSpec(&spec);
        p_ = (PyObject *)type_;
        detail::registry()[std::type_index(typeid(T))] = type_;
        Py_INCREF(p_);
        PyModule_AddObject(m.ptr(), name, p_);
    }
    template <typename... A, typename... X> class_ &def(init<A...>, const X &...x) {
        detail::spec s;
        detail::apply_all(s, x...);
        auto build = [](A... a) {
            auto *self = current();
            T *v = new T(std::forward<A>(a)...);
            if (self->value && self->destroy) self->destroy(self->value);
            self->value = v;
            self->destroy = [](void *p) { delete (T *)p; };
        };
        ctors().push_back(detail::fold_sig<void (*)(A...)>::make(build, s));
        return *this;
    }
    template <typename D> class_ &def_readwrite(const char *name, D T::*pm) { return def_readonly(name, pm); }
    template <typename D> class_ &def_readonly(const char *name, D T::*pm) {
        auto *get = new std::function<PyObject *(PyObject *)>([pm](PyObject *o) {
            return detail::caster<D>::cast(detail::caster<T>::load(o).*pm); });
        auto *gd = new PyGetSetDef{strdup(name), [](PyObject *o, void *c) -> PyObject * {
            try { return (*(std::function<PyObject *(PyObject *)> *)c)(o); }
            catch (...) { detail::translate(); return nullptr; } }, nullptr, nullptr, get};
        PyObject *d = PyDescr_NewGetSet(type_, gd);
        PyObject_SetAttrString(p_, name, d);
        Py_DECREF(d);
        return *this;
    }
    template <typename F, typename... X> class_ &def(const char *, F &&, const X &...) { return *this; }
};

template <typename E> class enum_ : public handle {
    module_ m_; std::string name_; PyObject *items_; bool done_ = false;
    void build() {
        if (done_) return;
        done_ = true;
        PyObject *em = PyImport_ImportModule("enum");
        PyObject *cls = PyObject_CallMethod(em, "IntEnum", "sO", name_.c_str(), items_);
        Py_DECREF(em);
        if (!cls) throw error_already_set();
        detail::enum_registry()[std::type_index(typeid(E))] = cls;
        PyObject *mod = PyUnicode_FromString(PyModule_GetName(m_.ptr()));
        PyObject_SetAttrString(cls, "__module__", mod);
        Py_DECREF(mod);
        Py_INCREF(cls);
        PyModule_AddObject(m_.ptr(), name_.c_str(), cls);
        p_ = cls;
    }
public:
    enum_(module_ &m, const char *name, ...) : m_(m), name_(name), items_(PyList_New(0)) {}
    enum_ &value(const char *n, E v, const char * = nullptr) {
        PyObject *t = Py_BuildValue("(sl)", n, (long)v);
        PyList_Append(items_, t);
        Py_DECREF(t);
        return *this;
    }
    enum_ &export_values() {
        build();
        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(items_); ++i) {
            const char *n = PyUnicode_AsUTF8(PyTuple_GET_ITEM(PyList_GET_ITEM(items_, i), 0));
            PyModule_AddObject(m_.ptr(), n, PyObject_GetAttrString(p_, n));
        }
        return *this;
    }
    ~enum_() { build(); Py_DECREF(items_); }
};

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                              \
    static void minipybind_init_##name(::pybind11::module_ &);                       \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {     \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, \
                                  nullptr, nullptr, nullptr, nullptr};               \
        PyObject *m = PyModule_Create(&def);                                         \
        if (!m) return nullptr;                                                      \
        ::pybind11::module_ mod(m);                                                  \
        try { minipybind_init_##name(mod); }                                         \
        catch (...) { ::pybind11::detail::translate(); return nullptr; }             \
        return m;                                                                    \
    }                                                                                \
    static void minipybind_init_##name(::pybind11::module_ &variable)
