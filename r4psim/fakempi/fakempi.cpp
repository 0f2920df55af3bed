#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include "mpi4py/mpi4py.h"

PyTypeObject* fakempi_comm_type = nullptr;
static PyObject* g_mod = nullptr;

int fakempi_import(void) {
    g_mod = PyImport_ImportModule("mpi4py.MPI");
    if (!g_mod) return -1;
    PyObject* t = PyObject_GetAttrString(g_mod, "Comm");
    if (!t) return -1;
    fakempi_comm_type = (PyTypeObject*)t;
    return 0;
}

static void die(const char* what) {
    /* default MPI error handler: abort the rank's process */
    fprintf(stderr, "fakempi: error in %s\n", what);
    if (PyErr_Occurred()) PyErr_Print();
    fflush(stderr);
    abort();
}

static PyObject* call(const char* name, const char* fmt, ...) {
    PyGILState_STATE st = PyGILState_Ensure();
    if (!g_mod && fakempi_import() < 0) die(name);
    va_list va;
    va_start(va, fmt);
    PyObject* args = Py_VaBuildValue(fmt, va);
    va_end(va);
    PyObject* f = PyObject_GetAttrString(g_mod, name);
    if (!f || !args) die(name);
    PyObject* r = PyObject_CallObject(f, args);
    Py_DECREF(args);
    Py_DECREF(f);
    if (!r) die(name);
    PyGILState_Release(st);
    return r;
}

static int call_int(const char* name, const char* fmt, long a, long b) {
    PyObject* r = call(name, fmt, a, b);
    long v = PyLong_AsLong(r);
    Py_DECREF(r);
    return (int)v;
}

PyObject* fakempi_comm_new(MPI_Comm c) { return call("_c_wrap", "(i)", c); }

MPI_Comm* fakempi_comm_get(PyObject* o) {
    static std::map<int, std::unique_ptr<MPI_Comm>> store;
    PyObject* h = PyObject_GetAttrString(o, "_handle");
    if (!h) return nullptr;
    int v = (int)PyLong_AsLong(h);
    Py_DECREF(h);
    auto& p = store[v];
    if (!p) p.reset(new MPI_Comm(v));
    return p.get();
}

static size_t tsize(MPI_Datatype t) {
    switch (t) {
    case MPI_BYTE: case MPI_CHAR: return 1;
    case MPI_SHORT: return sizeof(short);
    case MPI_INT: case MPI_UNSIGNED: return sizeof(int);
    case MPI_LONG: case MPI_UNSIGNED_LONG: return sizeof(long);
    case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: return sizeof(long long);
    case MPI_FLOAT: return sizeof(float);
    case MPI_DOUBLE: return sizeof(double);
    }
    die("datatype");
    return 0;
}

static void copy_ints(PyObject* r, int* out, int maxn) {
    Py_ssize_t n = PyTuple_Size(r);
    for (Py_ssize_t i = 0; i < n && i < maxn; ++i) out[i] = (int)PyLong_AsLong(PyTuple_GET_ITEM(r, i));
}

static void copy_bytes(PyObject* r, void* out, size_t n) {
    if (PyBytes_Size(r) != (Py_ssize_t)n) die("message truncated");
    memcpy(out, PyBytes_AsString(r), n);
}

extern "C" {
MPI_Comm fakempi_world(void) { return call_int("_c_world", "(ll)", 0, 0); }
MPI_Comm fakempi_self(void) { return call_int("_c_self", "(ll)", 0, 0); }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = call_int("_c_size", "(ll)", c, 0); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = call_int("_c_rank", "(ll)", c, 0); return 0; }
int MPI_Comm_free(MPI_Comm* c) {
    if (Py_IsInitialized()) { PyObject* r = call("_c_free", "(i)", *c); Py_DECREF(r); }
    *c = MPI_COMM_NULL;
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { *out = call_int("_c_dup", "(ll)", c, 0); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
    PyObject* r = call("_c_split", "(iii)", c, color, key);
    *out = (int)PyLong_AsLong(r);
    Py_DECREF(r);
    return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* res) { *res = call_int("_c_compare", "(ll)", a, b); return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)tsize(t); return 0; }

int MPI_Dims_create(int nnodes, int ndims, int dims[]) {
    PyObject* t = PyTuple_New(ndims);
    for (int i = 0; i < ndims; ++i) PyTuple_SET_ITEM(t, i, PyLong_FromLong(dims[i]));
    PyObject* r = call("_c_dims", "(iN)", nnodes, t);
    copy_ints(r, dims, ndims);
    Py_DECREF(r);
    return 0;
}
int MPI_Cart_create(MPI_Comm c, int ndims, const int dims[], const int periods[], int, MPI_Comm* out) {
    PyObject* d = PyTuple_New(ndims);
    PyObject* p = PyTuple_New(ndims);
    for (int i = 0; i < ndims; ++i) {
        PyTuple_SET_ITEM(d, i, PyLong_FromLong(dims[i]));
        PyTuple_SET_ITEM(p, i, PyLong_FromLong(periods[i]));
    }
    PyObject* r = call("_c_cart_create", "(iNN)", c, d, p);
    *out = (int)PyLong_AsLong(r);
    Py_DECREF(r);
    return 0;
}
int MPI_Cart_coords(MPI_Comm c, int rank, int maxdims, int coords[]) {
    PyObject* r = call("_c_cart_coords", "(ii)", c, rank);
    copy_ints(r, coords, maxdims);
    Py_DECREF(r);
    return 0;
}
int MPI_Cartdim_get(MPI_Comm c, int* n) {
    PyObject* r = call("_c_cart_dims", "(i)", c);
    *n = (int)PyTuple_Size(r);
    Py_DECREF(r);
    return 0;
}
int MPI_Cart_get(MPI_Comm c, int maxdims, int dims[], int periods[], int coords[]) {
    int n, rank;
    MPI_Cartdim_get(c, &n);
    PyObject* r = call("_c_cart_dims", "(i)", c);
    copy_ints(r, dims, maxdims);
    Py_DECREF(r);
    r = call("_c_cart_periods", "(i)", c);
    copy_ints(r, periods, maxdims);
    Py_DECREF(r);
    MPI_Comm_rank(c, &rank);
    return MPI_Cart_coords(c, rank, maxdims, coords);
}
int MPI_Cart_rank(MPI_Comm c, const int coords[], int* rank) {
    int n;
    MPI_Cartdim_get(c, &n);
    PyObject* t = PyTuple_New(n);
    for (int i = 0; i < n; ++i) PyTuple_SET_ITEM(t, i, PyLong_FromLong(coords[i]));
    PyObject* r = call("_c_cart_rank", "(iN)", c, t);
    *rank = (int)PyLong_AsLong(r);
    Py_DECREF(r);
    return 0;
}
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int* src, int* dest) {
    PyObject* r = call("_c_cart_shift", "(iii)", c, dir, disp);
    int v[2];
    copy_ints(r, v, 2);
    Py_DECREF(r);
    *src = v[0];
    *dest = v[1];
    return 0;
}
int MPI_Barrier(MPI_Comm c) { PyObject* r = call("_c_barrier", "(i)", c); Py_DECREF(r); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    PyObject* r = call("_c_bcast", "(iiy#)", c, root, (const char*)b, (Py_ssize_t)(n * tsize(t)));
    copy_bytes(r, b, n * tsize(t));
    Py_DECREF(r);
    return 0;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* o, int rn, MPI_Datatype rt, MPI_Comm c) {
    int size, rank;
    MPI_Comm_size(c, &size);
    MPI_Comm_rank(c, &rank);
    const char* src = s == MPI_IN_PLACE ? (char*)o + rank * rn * tsize(rt) : (const char*)s;
    size_t nb = s == MPI_IN_PLACE ? rn * tsize(rt) : sn * tsize(st);
    PyObject* r = call("_c_allgather", "(iy#)", c, src, (Py_ssize_t)nb);
    copy_bytes(r, o, (size_t)size * rn * tsize(rt));
    Py_DECREF(r);
    return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* o, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    int size, rank;
    MPI_Comm_size(c, &size);
    MPI_Comm_rank(c, &rank);
    PyObject* r = call("_c_gather", "(iiy#)", c, root, (const char*)s, (Py_ssize_t)(sn * tsize(st)));
    if (rank == root) copy_bytes(r, o, (size_t)size * rn * tsize(rt));
    Py_DECREF(r);
    return 0;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* o, int rn, MPI_Datatype rt, MPI_Comm c) {
    int size;
    MPI_Comm_size(c, &size);
    PyObject* r = call("_c_alltoall", "(iy#)", c, (const char*)s, (Py_ssize_t)((size_t)size * sn * tsize(st)));
    copy_bytes(r, o, (size_t)size * rn * tsize(rt));
    Py_DECREF(r);
    return 0;
}
int MPI_Allreduce(const void* s, void* o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    const void* src = s == MPI_IN_PLACE ? o : s;
    PyObject* r = call("_c_allreduce", "(iiiy#)", c, t, op, (const char*)src, (Py_ssize_t)(n * tsize(t)));
    copy_bytes(r, o, n * tsize(t));
    Py_DECREF(r);
    return 0;
}
double MPI_Wtime(void) {
    PyObject* r = call("Wtime", "()");
    double v = PyFloat_AsDouble(r);
    Py_DECREF(r);
    return v;
}
int MPI_Abort(MPI_Comm, int code) { die("MPI_Abort"); return code; }
}
