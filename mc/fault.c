/* The allocations of pywt's native code: counted, and made to fail on demand. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdlib.h>

static long count, from = -1, upto = -1, failed;

static int fails(void) {
    long k = count++;
    if (k >= from && k < upto) { failed++; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) { return fails() ? NULL : malloc(n); }
void *__wrap_calloc(size_t n, size_t e) { return fails() ? NULL : calloc(n, e); }
void *__wrap_realloc(void *p, size_t n) { return fails() ? NULL : realloc(p, n); }

/* allocations number a..b-1 from now on fail */
static PyObject *arm(PyObject *self, PyObject *args) {
    long a, b;
    if (!PyArg_ParseTuple(args, "ll", &a, &b)) return NULL;
    count = failed = 0; from = a; upto = b;
    Py_RETURN_NONE;
}
/* (allocations seen, allocations that failed) since arm(); none fails any more */
static PyObject *disarm(PyObject *self, PyObject *args) {
    from = upto = -1;
    return Py_BuildValue("ll", count, failed);
}
static PyMethodDef methods[] = {{"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "fault", NULL, -1, methods};
PyMODINIT_FUNC PyInit_fault(void) { return PyModule_Create(&mod); }
