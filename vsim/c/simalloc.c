/* Seam over numpy's array memory (NEP 49 data handler).
 *
 * Every block handed out is filled with a chosen pattern, so that code reading
 * memory it never wrote sees a value the simulator decides; and while armed,
 * the n-th allocation fails, so that numpy raises MemoryError at that point,
 * be it in Python, in scipy or inside compiled code. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <execinfo.h>
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <string.h>
#include <malloc.h>

static int armed, pattern;
static unsigned long count, fail_at, fired;
static unsigned long long lcg = 88172645463325252ULL;

static void fill(void *p, size_t n) {
    switch (pattern) {
    case 0: return;
    case 1: memset(p, 0xff, n); return;              /* NaN, -1 */
    case 2: memset(p, 0, n); return;
    case 3: memset(p, 0x3f, n); return;              /* 0.747 as float, 4.8e-4 as double */
    case 4: memset(p, 0x41, n); return;              /* 12.1 / 2.3e6 */
    case 5: memset(p, 0xc1, n); return;              /* negative */
    default: {
        unsigned char *c = p;
        for (size_t i = 0; i + 8 <= n; i += 8) {
            lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17;
            memcpy(c + i, &lcg, 8);
        }
    } }
}
/* scipy's compiled sparse routines do not check the arrays they create for
 * their results: an allocation failing there kills the process, whoever calls. */
static int in_sparsetools(void) {
    void *pc[64];
    Dl_info info;
    int n = backtrace(pc, 64);
    for (int i = 1; i < n && i < 24; i++)
        if (dladdr(pc[i], &info) && info.dli_fname && strstr(info.dli_fname, "_sparsetools")) return 1;
    return 0;
}
static int should_fail(void) {
    if (!armed) return 0;
    count++;
    if (fail_at && !fired && count >= fail_at && !in_sparsetools()) { fired++; return 1; }
    return 0;
}
static void *h_malloc(void *ctx, size_t n) {
    if (should_fail()) return NULL;
    void *p = malloc(n ? n : 1);
    if (p) fill(p, n);
    return p;
}
static void *h_calloc(void *ctx, size_t a, size_t b) {
    if (should_fail()) return NULL;
    return calloc(a ? a : 1, b ? b : 1);
}
static void *h_realloc(void *ctx, void *p, size_t n) {
    if (should_fail()) return NULL;
    return realloc(p, n ? n : 1);
}
static void h_free(void *ctx, void *p, size_t n) { free(p); }

static PyDataMem_Handler handler = {
    "simalloc", 1, { NULL, h_malloc, h_calloc, h_realloc, h_free }
};

static PyObject *install(PyObject *s, PyObject *a) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *set_pattern(PyObject *s, PyObject *a) {
    unsigned long long seed = 0;
    if (!PyArg_ParseTuple(a, "i|K", &pattern, &seed)) return NULL;
    lcg = 88172645463325252ULL ^ (seed * 0x9E3779B97F4A7C15ULL);
    if (!lcg) lcg = 1;
    /* the same idea for plain malloc'd blocks */
    mallopt(M_PERTURB, pattern == 0 ? 0 : pattern == 1 ? 0x01 : pattern == 2 ? 0xff : (0x37 + pattern));
    Py_RETURN_NONE;
}
static PyObject *arm(PyObject *s, PyObject *a) {
    unsigned long at = 0;
    if (!PyArg_ParseTuple(a, "|k", &at)) return NULL;
    armed = 1; count = 0; fired = 0; fail_at = at;
    Py_RETURN_NONE;
}
static PyObject *disarm(PyObject *s, PyObject *a) {
    armed = 0;
    return Py_BuildValue("kk", count, fired);
}
static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""}, {"set_pattern", set_pattern, METH_VARARGS, ""},
    {"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""}, {NULL}
};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simalloc", NULL, -1, methods};
PyMODINIT_FUNC PyInit_simalloc(void) { import_array(); return PyModule_Create(&mod); }
