/* Scheduler for two threads at the granularity of native memory accesses.
   The instrumented build of pywt calls a __tsan_* hook before every access. A thread with a role (1 or 2) counts its
   accesses made without the interpreter lock and stops before access number pause_at[role] until the controller resumes it.
   With logging on, the set of locations each role touches is kept, to find the accesses of role 1 that conflict with role 2. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <semaphore.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>

static __thread int role;
static __thread int had_gil;
static long pause_at[3] = {-1, -1, -1};
static long count[3];
static volatile int state[3];          /* 0 idle, 1 running, 2 paused, 3 done */
static sem_t ev, go[3];
static int logging_on, defer_on;
static atomic_flag lock = ATOMIC_FLAG_INIT;
static void acquire(void) { while (atomic_flag_test_and_set(&lock)) ; }
static void release(void) { atomic_flag_clear(&lock); }

/* regions of role: access numbers at which the lock had just been released */
#define NREG 4096
static long reg[3][NREG];
static int nreg[3];

/* locations: 8-byte granules -> bits */
#define NSH (1u << 20)
static uintptr_t *sh_key;
static unsigned char *sh_val;
static long sh_used;
static int overflow;
#define NSEQ (1l << 20)
static struct { uintptr_t a; unsigned sz; int w; } *seq;
static long nseq;

static unsigned char *slot(uintptr_t g, int create) {
    unsigned h = (unsigned)((g * 0x9E3779B97F4A7C15ull) >> 44);
    for (;; h = (h + 1) & (NSH - 1)) {
        if (sh_key[h] == g) return sh_val + h;
        if (!sh_key[h]) {
            if (!create) return NULL;
            if (sh_used > NSH * 3 / 4) { overflow = 1; return NULL; }
            sh_used++; sh_key[h] = g; sh_val[h] = 0;
            return sh_val + h;
        }
    }
}

static void do_pause(int r) {
    state[r] = 2;
    sem_post(&ev);
    while (sem_wait(&go[r]) && errno == EINTR) ;
}

/* bits: 1 A read, 2 A write, 4 B read, 8 B write, and the same << 4 for accesses without the interpreter lock */
static void acc(void *p, size_t n, int w) {
    if (!role || !n) return;
    int e = errno;
    int gil = PyGILState_Check();
    if (logging_on) {
        acquire();
        int b = (w ? 2 : 1) << (role == 2 ? 2 : 0);
        if (!gil) b <<= 4;
        for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) {
            unsigned char *s = slot(g, 1);
            if (s) *s |= b;
        }
        if (!gil && role == 1) {
            if (nseq < NSEQ) { seq[nseq].a = (uintptr_t)p; seq[nseq].sz = n; seq[nseq].w = w; nseq++; }
            else overflow = 1;
        }
        release();
    }
    if (!gil) {
        long i = count[role]++;
        if (had_gil && nreg[role] < NREG) reg[role][nreg[role]++] = i;
        if (i == pause_at[role]) do_pause(role);
    }
    had_gil = gil;
    errno = e;
}

#define RW(n) \
    void __tsan_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { acc(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *a, void *b) {}
void __tsan_vptr_read(void *a) {}
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int o) { return __atomic_load_n(p, 5); } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int o) { __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int o) { return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int o) { return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int o) { return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int o) { return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int o) { return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int o) { return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int q) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int q) { return __atomic_compare_exchange_n(p, c, v, 1, 5, 5); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int o, int q) { __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) {}

void *mc_memcpy(void *d, const void *s, size_t n) { acc((void *)s, n, 0); acc(d, n, 1); return memmove(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { acc((void *)s, n, 0); acc(d, n, 1); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { acc(d, n, 1); return memset(d, c, n); }

/* blocks freed while deferring stay allocated, so that an address means the same object throughout a schedule */
#define NDEF 65536
static void *def[NDEF];
static int ndef;
void mc_free(void *p) {
    if (!p) return;
    if (defer_on) {
        acquire();
        if (ndef < NDEF) { def[ndef++] = p; p = NULL; }
        release();
    }
    free(p);
}

static void *h_malloc(void *c, size_t n) { return malloc(n ? n : 1); }
static void *h_calloc(void *c, size_t n, size_t e) { return calloc(n ? n : 1, e ? e : 1); }
static void *h_realloc(void *c, void *p, size_t n) { return realloc(p, n ? n : 1); }
static void h_free(void *c, void *p, size_t n) { mc_free(p); }
static PyDataMem_Handler handler = {"sched", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};

static PyObject *install(PyObject *self, PyObject *args) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}

/* setup(pause1, pause2, logging, defer): before a schedule, with both threads idle */
static PyObject *setup(PyObject *self, PyObject *args) {
    int lg, df;
    if (!PyArg_ParseTuple(args, "llii", &pause_at[1], &pause_at[2], &lg, &df)) return NULL;
    if (!sh_key) {
        sh_key = calloc(NSH, sizeof *sh_key);
        sh_val = calloc(NSH, 1);
        seq = malloc(NSEQ * sizeof *seq);
        sem_init(&ev, 0, 0);
        for (int i = 0; i < 3; i++) sem_init(&go[i], 0, 0);
    }
    if (lg) {
        if (sh_used) { memset(sh_key, 0, NSH * sizeof *sh_key); sh_used = 0; }
        nseq = 0; overflow = 0;
    }
    logging_on = lg;
    defer_on = 0;
    while (ndef) free(def[--ndef]);
    defer_on = df;
    state[1] = state[2] = 0;
    Py_RETURN_NONE;
}
static PyObject *enter(PyObject *self, PyObject *args) {
    int r;
    if (!PyArg_ParseTuple(args, "i", &r)) return NULL;
    count[r] = 0; nreg[r] = 0; had_gil = 1; role = r;
    Py_RETURN_NONE;
}
static PyObject *leave(PyObject *self, PyObject *args) { role = 0; Py_RETURN_NONE; }
static PyObject *pausepoint(PyObject *self, PyObject *args) {
    int r = role;
    if (!r) Py_RETURN_NONE;
    role = 0;
    Py_BEGIN_ALLOW_THREADS
    do_pause(r);
    Py_END_ALLOW_THREADS
    role = r;
    Py_RETURN_NONE;
}
static PyObject *done(PyObject *self, PyObject *args) {
    int r;
    if (!PyArg_ParseTuple(args, "i", &r)) return NULL;
    state[r] = 3;
    sem_post(&ev);
    Py_RETURN_NONE;
}
static PyObject *resume(PyObject *self, PyObject *args) {
    int r;
    if (!PyArg_ParseTuple(args, "i", &r)) return NULL;
    state[r] = 1;
    sem_post(&go[r]);
    Py_RETURN_NONE;
}
static PyObject *idle(PyObject *self, PyObject *args) {
    int r;
    if (!PyArg_ParseTuple(args, "i", &r)) return NULL;
    Py_BEGIN_ALLOW_THREADS
    while (sem_wait(&go[r]) && errno == EINTR) ;
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
/* wait(role, ms): until that role is paused or done; its state */
static PyObject *wait_for(PyObject *self, PyObject *args) {
    int r, ms, ok = 1;
    if (!PyArg_ParseTuple(args, "ii", &r, &ms)) return NULL;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += ms / 1000; t.tv_nsec += (ms % 1000) * 1000000l;
    if (t.tv_nsec >= 1000000000l) { t.tv_nsec -= 1000000000l; t.tv_sec++; }
    Py_BEGIN_ALLOW_THREADS
    while (ok && state[r] < 2) {
        if (sem_timedwait(&ev, &t) && errno == ETIMEDOUT) ok = 0;
    }
    Py_END_ALLOW_THREADS
    return PyLong_FromLong(state[r]);
}
static PyObject *info(PyObject *self, PyObject *args) {
    PyObject *l = PyList_New(0);
    for (int i = 0; i < nreg[1]; i++) { PyObject *v = PyLong_FromLong(reg[1][i]); PyList_Append(l, v); Py_DECREF(v); }
    return Py_BuildValue("llNi", count[1], count[2], l, overflow);
}
/* numbers of role 1's accesses without the interpreter lock that conflict with any access of role 2 */
static PyObject *conflicts(PyObject *self, PyObject *args) {
    PyObject *l = PyList_New(0);
    for (long i = 0; i < nseq; i++)
        for (uintptr_t g = seq[i].a >> 3; g <= (seq[i].a + seq[i].sz - 1) >> 3; g++) {
            unsigned char *s = slot(g, 0);
            int b = s ? ((*s >> 2) | (*s >> 6)) & 3 : 0;
            if (seq[i].w ? b : b & 2) {
                PyObject *v = PyLong_FromLong(i);
                PyList_Append(l, v);
                Py_DECREF(v);
                break;
            }
        }
    return l;
}
static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""}, {"setup", setup, METH_VARARGS, ""}, {"enter", enter, METH_VARARGS, ""},
    {"leave", leave, METH_NOARGS, ""}, {"pause", pausepoint, METH_NOARGS, ""}, {"done", done, METH_VARARGS, ""},
    {"resume", resume, METH_VARARGS, ""}, {"idle", idle, METH_VARARGS, ""}, {"wait", wait_for, METH_VARARGS, ""},
    {"info", info, METH_NOARGS, ""}, {"conflicts", conflicts, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "sched", NULL, -1, methods};
PyMODINIT_FUNC PyInit_sched(void) { import_array(); return PyModule_Create(&mod); }
