// array_t<double> and vectorize, through numpy.asarray and the buffer protocol.
#pragma once
#include "pybind11.h"
namespace pybind11 {
struct array : object { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
template <typename T, int Flags = 16> class array_t : public object {
public:
    array_t() = default;
    static array_t from_python(PyObject *o) {
        PyObject *np = PyImport_ImportModule("numpy");
        if (!np) throw error_already_set();
        PyObject *a = PyObject_CallMethod(np, "asarray", "Os", o, "d");
        Py_DECREF(np);
        if (!a) throw error_already_set();
        array_t r; r.p_ = a;
        return r;
    }
};
template <typename F> struct vectorized {
    F f;
    object operator()(const array_t<double> &in) const {
        // out = numpy.array(in, order='C', copy=True); transform in place
        PyObject *np = PyImport_ImportModule("numpy");
        PyObject *out = PyObject_CallMethod(np, "array", "O", in.ptr());
        PyObject *c = out ? PyObject_CallMethod(np, "ascontiguousarray", "O", out) : nullptr;
        PyObject *nd = out ? PyObject_GetAttrString(out, "ndim") : nullptr;
        Py_XDECREF(out);
        Py_DECREF(np);
        if (!c) throw error_already_set();
        object arr = object::steal(c);
        long ndim = PyLong_AsLong(nd);
        Py_DECREF(nd);
        Py_buffer b;
        if (PyObject_GetBuffer(c, &b, PyBUF_C_CONTIGUOUS | PyBUF_WRITABLE)) throw error_already_set();
        double *d = (double *)b.buf;
        Py_ssize_t n = b.len / (Py_ssize_t)sizeof(double);
        try { for (Py_ssize_t i = 0; i < n; ++i) d[i] = f(d[i]); }
        catch (...) { PyBuffer_Release(&b); throw; }
        double first = n ? d[0] : 0.;
        PyBuffer_Release(&b);
        if (ndim == 0) return object::steal(PyFloat_FromDouble(first));
        return arr;
    }
};
template <typename F> vectorized<F> vectorize(F f) { return vectorized<F>{f}; }
}  // namespace pybind11
