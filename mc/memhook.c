/* A numpy allocator without numpy's small-block cache: every array buffer is its own malloc block of exactly the requested
   size (so that AddressSanitizer sees its bounds), filled with 0xFF bytes (a NaN in every floating type). */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>

static void *h_malloc(void *c, size_t n) { void *p = malloc(n ? n : 1); if (p) memset(p, 0xFF, n); return p; }
static void *h_calloc(void *c, size_t n, size_t e) { return calloc(n ? n : 1, e ? e : 1); }
static void *h_realloc(void *c, void *p, size_t n) { return realloc(p, n ? n : 1); }
static void h_free(void *c, void *p, size_t n) { free(p); }
static PyDataMem_Handler handler = {"exact", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};

static PyObject *install(PyObject *self, PyObject *args) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyMethodDef methods[] = {{"install", install, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "memhook", NULL, -1, methods};
PyMODINIT_FUNC PyInit_memhook(void) { import_array(); return PyModule_Create(&mod); }
