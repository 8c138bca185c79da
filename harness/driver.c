/* Call-script interpreter for the public API of IMUtility.
 *
 * Reads a script (one command per line) on stdin, performs each command on the real library and
 * writes one JSON event per call on stdout: name, arguments, results, and what was observed of the
 * memory around the call.  It contains no oracle: whether an event is right is decided by the TLA+
 * specification that reads the trace.
 *
 * Memory: every area handed to the library is an exact-size region placed against an unmapped page
 * (at its end: placement R, or at its start: placement L), or for placement M some bytes after the
 * start, at odd addresses too; the rest of its pages is filled with a pattern.  "st" reports what was observed: OK, SEGV/BUS/FPE/ILL/HANG (the call did not return),
 * SLACK (bytes around a region changed), INPUT (an area passed as const changed).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#include "base64.h"
#include "bit_manipulation.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"
#include "utils.h"
#include "bubble_sort.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "selection_sort.h"
#include "caesar_cipher.h"
#include "vernam_cipher.h"
#include "chacha20.h"
#include "crc_list.h" /* generated: includes of every CRC header */

#define FILL 0xC3
#define SLACK 0xA5
#define PAGE 4096u
static int hang_s = 10;

static FILE *out;

static void die(const char *msg) {
    fprintf(stderr, "driver: %s\n", msg);
    fflush(out);
    _exit(4);
}

/* ------------------------------------------------------------------ regions */
typedef struct Region {
    uint8_t *base;  /* first mapped (accessible) byte */
    size_t pages;   /* accessible pages */
    uint8_t *p;     /* the area handed out */
    size_t n;
    uint8_t *copy;  /* for const areas: what it held */
    size_t copycap;
    int checked;    /* const area: must not change */
    int inuse;
    int locked;     /* read-only for the time of a call (memlog) */
    int tag;        /* the object it belongs to (family * 256 + id), 0 for the areas of one call */
    uint8_t *snap;  /* contents before the call in progress (memlog) */
    size_t snapcap;
    struct Region *next;
} Region;

static Region *pool;
static int place = 'R';
static int misalign = 1;    /* placement M: that many bytes after the start of the page, for areas of bytes */
static int alignstep;       /* and that many more (modulo 16) for each further area */
static int typed;           /* > 0: the area holds objects that want their alignment */
#define TYPED(area) (typed++, typed_done(area))
static unsigned fill_byte = FILL;

#define GIANT (1ul << 30)
static Region *reg_new(size_t n) {
    size_t off = place == 'M' && !typed ? (size_t)misalign : 0;
    if (place == 'M' && !typed && alignstep) misalign = (misalign + alignstep) % 16;
    size_t pages = (n + off + PAGE - 1) / PAGE;
    if (pages == 0) pages = 1;
    Region *r;
    for (r = pool; r; r = r->next)
        if (!r->inuse && r->pages == pages) break;
    if (!r) {
        r = calloc(1, sizeof *r);
        if (!r) die("out of memory");
        uint8_t *m = mmap(NULL, (pages + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) die("mmap");
        if (mprotect(m + PAGE, pages * PAGE, PROT_READ | PROT_WRITE)) die("mprotect");
        r->base = m + PAGE;
        r->pages = pages;
        r->next = pool;
        pool = r;
    }
    r->inuse = 1;
    r->n = n;
    r->checked = 0;
    r->tag = 0;
    r->p = place == 'R' ? r->base + pages * PAGE - n : r->base + off;
    if (n > GIANT) { /* only its surroundings are filled */
        memset(r->base, SLACK, (size_t)(r->p - r->base));
        memset(r->p + n, SLACK, pages * PAGE - n - (size_t)(r->p - r->base));
        return r;
    }
    memset(r->base, SLACK, pages * PAGE);
    memset(r->p, (int)fill_byte, n);
    return r;
}

static Region *typed_done(Region *r) {
    typed--;
    return r;
}

static Region *reg_const(const void *data, size_t n) {
    Region *r = reg_new(n);
    if (n) memcpy(r->p, data, n);
    if (r->copycap < n) {
        r->copy = realloc(r->copy, n);
        if (!r->copy) die("out of memory");
        r->copycap = n;
    }
    if (n) memcpy(r->copy, data, n);
    r->checked = 1;
    return r;
}

static Region *reg_data(const void *data, size_t n) {
    Region *r = reg_new(n);
    if (n) memcpy(r->p, data, n);
    return r;
}

static void reg_free(Region *r) {
    if (!r) return;
    r->inuse = 0;
    if (r->n > GIANT) madvise(r->base, r->pages * PAGE, MADV_DONTNEED);
}

static size_t held(const Region *r) { return r->n > GIANT ? PAGE : r->n; } /* that much of it is compared */

/* an object handed over as const: must not change until released */
static void reg_hold(Region *r) {
    if (!r) return;
    if (r->copycap < held(r)) {
        r->copy = realloc(r->copy, held(r));
        r->copycap = held(r);
    }
    memcpy(r->copy, r->p, held(r));
    r->checked = 1;
}
static void reg_release(Region *r) {
    if (r) r->checked = 0;
}

static Region *tagged(Region *r, int family, int id) {
    r->tag = family * 256 + id + 1;
    return r;
}

static int reg_slack_ok(const Region *r) {
    const uint8_t *e = r->base + r->pages * PAGE;
    for (const uint8_t *q = r->base; q < r->p; ++q)
        if (*q != SLACK) return 0;
    for (const uint8_t *q = r->p + r->n; q < e; ++q)
        if (*q != SLACK) return 0;
    return 1;
}

/* --------------------------------------------------------- protected calling */
static const char *st;              /* observation about the last call */
static sigjmp_buf *volatile guard;  /* innermost protected call */
static const char *volatile fault_name;

static void on_fault(int sig, siginfo_t *si, void *uc) {
    (void)si;
    (void)uc;
    fault_name = sig == SIGSEGV ? "SEGV" : sig == SIGBUS ? "BUS" : sig == SIGFPE ? "FPE" : sig == SIGILL ? "ILL"
               : sig == SIGABRT ? "ABRT" : "HANG";
    if (guard) siglongjmp(*guard, 1);
    fprintf(stderr, "driver: %s outside a call\n", fault_name);
    _exit(5);
}

static void timer(int on) {
    struct itimerval it = {{0, 0}, {on ? hang_s : 0, 0}};
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

/* while the footprint is recorded, areas passed as const are read-only during the call: a write to one
 * shows even when the old contents are put back */
static int memlog;
static long lock_inputs(void) {
    static long serial;
    if (!memlog) return 0;
    serial++;
    for (Region *r = pool; r; r = r->next)
        if (r->inuse && r->checked && !r->locked) {
            r->locked = (int)serial;
            mprotect(r->base, r->pages * PAGE, PROT_READ);
        }
    return serial;
}
static void unlock_inputs(long serial) {
    if (!serial) return;
    for (Region *r = pool; r; r = r->next)
        if (r->locked >= serial) {
            r->locked = 0;
            mprotect(r->base, r->pages * PAGE, PROT_READ | PROT_WRITE);
        }
}

/* ---- preemption: run another script inside a library call, by single stepping */
static struct {
    int armed;          /* the next protected call is to be preempted */
    int active;         /* stepping now */
    long start, stride; /* preempt at steps start, start+stride, ... */
    long max;           /* at most that many preemptions */
    long count, done;
    int script;
    int wait;           /* calls to let pass first */
    int guided;         /* instead: after each instruction that changes the library's own writable data */
} pre;
static long pre_steps, pre_hits;

/* the writable data of the library's objects (section renamed by the build); only says when to interrupt */
extern uint8_t __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
static uint8_t *lib_copy;
static size_t lib_size(void) { return __start_libdata ? (size_t)(__stop_libdata - __start_libdata) : 0; }
static int lib_changed(void) {
    size_t n = lib_size();
    if (!n) return 0;
    if (!lib_copy) lib_copy = malloc(n);
    if (!memcmp(lib_copy, __start_libdata, n)) return 0;
    memcpy(lib_copy, __start_libdata, n);
    return 1;
}

static int depth; /* scripts in progress */
static void run_script(int id);
static void c_rep(void);

static void on_trap(int sig, siginfo_t *si, void *ucv) {
    (void)sig;
    (void)si;
    ucontext_t *uc = ucv;
    if (!pre.active) {
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
        return;
    }
    pre.count++;
    if (pre.guided ? lib_changed() : pre.count >= pre.start && (pre.count - pre.start) % pre.stride == 0) {
        const char *keep_st = st;
        long count = pre.count;
        pre.active = 0;
        run_script(pre.script);
        pre.active = 1;
        pre.count = count;
        st = keep_st;
        if (pre.guided) lib_changed();
        if (++pre.done >= pre.max) {
            pre.active = 0;
            uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
        }
    }
}

static inline void tf_on(void) {
    __asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}
static inline void tf_off(void) {
    __asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}

/* CALL(stmt): performs stmt under the guard, then inspects every region in use. */
/* ---- what a call did to memory: number of areas in use and of bytes changed outside any of them,
 * of input areas and changed bytes in them, of areas of other objects and changed bytes in them */
static struct {
    long areas, outside, inputs, inchg, others, othchg;
} mem;
static int cur_tag;
static long mem_calls;
static long mem_before(void) {
    for (Region *r = pool; r; r = r->next) {
        if (!r->inuse || !r->tag) continue;
        if (r->snapcap < r->n) {
            r->snap = realloc(r->snap, r->n);
            r->snapcap = r->n;
        }
        memcpy(r->snap, r->p, r->n);
    }
    return ++mem_calls;
}
static void inspect(long mine);

/* What a call must not depend on: the error number left behind by others and whatever the stack below happens to hold. */
static __attribute__((noinline)) void ambient(void) {
    static const int errors[] = {0, ERANGE, EINVAL, ENOMEM, EINTR};
    static const uint8_t dirt[] = {0xC3, 0x00, 0xFF, 0x01, 0x22, 0x80, 0x41};
    static unsigned turn;
    volatile uint8_t below[3072];
    memset((void *)below, turn % 8 == 7 ? (int)fill_byte : dirt[turn % 8], sizeof below);
    __asm__ volatile("" : : "r"(below) : "memory");
    errno = errors[turn % 5];
    ++turn;
}

#define CALL(stmt)                                       \
    do {                                                 \
        sigjmp_buf jb;                                   \
        sigjmp_buf *volatile outer = guard;              \
        volatile int stepping = pre.armed && !pre.wait--;\
        st = "OK";                                       \
        volatile long mine = memlog ? mem_before() : 0;  \
        volatile long lock = lock_inputs();              \
        if (sigsetjmp(jb, 1) == 0) {                     \
            guard = &jb;                                 \
            timer(1);                                    \
            ambient();                                   \
            if (stepping) {                              \
                pre.armed = 0;                           \
                pre.count = pre.done = 0;                \
                lib_changed();                           \
                pre.active = 1;                          \
                tf_on();                                 \
                stmt;                                    \
                tf_off();                                \
                pre.active = 0;                          \
                pre_steps += pre.count;                  \
                pre_hits += pre.done;                    \
            } else {                                     \
                stmt;                                    \
            }                                            \
            guard = outer;                               \
            unlock_inputs(lock);                         \
            inspect(mine);                               \
        } else {                                         \
            tf_off();                                    \
            pre.active = 0;                              \
            guard = outer;                               \
            unlock_inputs(lock);                         \
            st = fault_name;                             \
        }                                                \
        timer(outer != NULL);                            \
    } while (0)

/* the same without the inspection of the regions, for the middle of long runs */
#define LIGHT(stmt)                                                            \
    do {                                                                       \
        sigjmp_buf jb;                                                         \
        sigjmp_buf *volatile outer = guard;                                    \
        if (sigsetjmp(jb, 0) == 0) { guard = &jb; stmt; st = "OK"; }           \
        else st = fault_name;                                                  \
        guard = outer;                                                         \
    } while (0)

static void inspect(long mine) {
    st = "OK";
    memset(&mem, 0, sizeof mem);
    for (Region *r = pool; r; r = r->next) {
        if (!r->inuse) continue;
        mem.areas++;
        if (!reg_slack_ok(r)) {
            st = "SLACK";
            const uint8_t *e = r->base + r->pages * PAGE;
            for (const uint8_t *q = r->base; q < e; ++q) mem.outside += (q < r->p || q >= r->p + r->n) && *q != SLACK;
        } else if (r->checked && r->n && memcmp(r->p, r->copy, held(r)) != 0) st = "INPUT";
        if (r->checked) {
            mem.inputs++;
            for (size_t i = 0; i < held(r); ++i) mem.inchg += r->p[i] != r->copy[i];
        }
        if (memlog && mine == mem_calls && r->tag && r->tag != cur_tag) {
            mem.others++;
            for (size_t i = 0; i < r->n; ++i) mem.othchg += r->p[i] != r->snap[i];
        }
    }
}

/* ---------------------------------------------------------------- JSON output */
typedef struct {
    char **v;
    int n;
} Cmd;
static Cmd *cur;    /* the command being performed */
static int cmdlog;  /* log it with each event */
static int ev_open;
static long events;
static void ev(const char *op) {
    if (ev_open) die("nested event");
    ev_open = 1;
    fprintf(out, "{\"op\":\"%s\"", op);
}
static void ev_i(const char *k, long v) { fprintf(out, ",\"%s\":%ld", k, v); }
/* room of 2^30 bytes or more is written as 2^30 */
static void ev_room(const char *k, size_t v) { ev_i(k, v > GIANT ? (long)GIANT : (long)v); }
static void ev_b(const char *k, int v) { fprintf(out, ",\"%s\":%s", k, v ? "true" : "false"); }
static void ev_s(const char *k, const char *v) { fprintf(out, ",\"%s\":\"%s\"", k, v); }
static void ev_w(const char *k, uint32_t v) { fprintf(out, ",\"%s\":[%u,%u]", k, v >> 16, v & 0xFFFFu); }
static void arr(const uint8_t *p, size_t n) {
    fputc('[', out);
    for (size_t i = 0; i < n; ++i) fprintf(out, i ? ",%u" : "%u", p[i]);
    fputc(']', out);
}
static void ev_a(const char *k, const uint8_t *p, size_t n) {
    fprintf(out, ",\"%s\":", k);
    arr(p, n);
}
static void ev_end(void) {
    if (memlog)
        fprintf(out, ",\"mem\":{\"areas\":%ld,\"outside\":%ld,\"inputs\":%ld,\"inchg\":%ld,\"others\":%ld,\"othchg\":%ld}",
                mem.areas, mem.outside, mem.inputs, mem.inchg, mem.others, mem.othchg);
    memset(&mem, 0, sizeof mem);
    if (cmdlog) {
        fprintf(out, ",\"cmd\":\"");
        for (int i = 0; i < cur->n; ++i) fprintf(out, i ? " %s" : "%s", cur->v[i]);
        fputc('"', out);
    }
    fprintf(out, ",\"st\":\"%s\"}\n", st);
    ev_open = 0;
    events++;
}

/* -------------------------------------------------------------- script parsing */
typedef struct {
    char name[32];
    Cmd *c;
    int n, cap;
} Script;
static Script *scripts;
static int nscripts, capscripts;
static int script_id(const char *name) {
    for (int j = nscripts - 1; j >= 0; --j)
        if (!strcmp(scripts[j].name, name)) return j;
    return -1;
}

static const char *arg(int i) {
    if (i >= cur->n) die("missing argument");
    return cur->v[i];
}
static unsigned long num(int i) { return strtoul(arg(i), NULL, 0); }
static int isnil(int i) { return strcmp(arg(i), "-") == 0; }

typedef struct {
    uint8_t *p;
    size_t n;
} Buf;

static int hexv(char c) { return c >= 'a' ? c - 'a' + 10 : c >= 'A' ? c - 'A' + 10 : c - '0'; }

/* bytes argument: "x<hex>", or "g:a:b:c:n" = byte i is (a*i + b + c*(i/256)) mod 256 */
static Buf bytes(int i) {
    const char *s = arg(i);
    Buf b = {NULL, 0};
    if (s[0] == 'x') {
        b.n = strlen(s + 1) / 2;
        b.p = malloc(b.n + 1);
        for (size_t k = 0; k < b.n; ++k) b.p[k] = (uint8_t)(hexv(s[1 + 2 * k]) * 16 + hexv(s[2 + 2 * k]));
    } else if (s[0] == 'g') {
        unsigned a, bb, c;
        unsigned long n;
        if (sscanf(s, "g:%u:%u:%u:%lu", &a, &bb, &c, &n) != 4) die("bad generator");
        b.n = n;
        b.p = malloc(n + 1);
        for (size_t k = 0; k < n; ++k) b.p[k] = (uint8_t)(a * k + bb + c * (k / 256));
    } else {
        die("bad bytes argument");
    }
    b.p[b.n] = 0;
    return b;
}
static int isgen(int i) { return arg(i)[0] == 'g'; }
static void ev_data(int i, const Buf *b) { /* log a bytes argument: literally, or as its generator */
    if (isgen(i)) {
        unsigned a, bb, c;
        unsigned long n;
        sscanf(arg(i), "g:%u:%u:%u:%lu", &a, &bb, &c, &n);
        ev_b("gen", 1);
        fprintf(out, ",\"g\":[%u,%u,%u,%lu],\"d\":[]", a, bb, c, n);
    } else {
        ev_b("gen", 0);
        fprintf(out, ",\"g\":[0,0,0,0]");
        ev_a("d", b->p, b->n);
    }
}

/* C string region, including its NUL */
static Region *reg_str(const Buf *b) { return reg_const(b->p, b->n + 1); }

/* tokens: element t of size e; its first min(e,4) bytes are t little-endian, the rest is derived */
static void repeat256(uint8_t *p, size_t from, size_t e) { /* p[k] = p[k - 256] for k >= from */
    for (size_t done = from - 256; from < e;) {
        size_t n = (from - done) / 256 * 256;
        if (n > e - from) n = e - from;
        memcpy(p + from, p + done, n);
        from += n;
    }
}
static int repeats256(const uint8_t *p, size_t from, size_t e) { return e <= from || !memcmp(p + from, p + from - 256, e - from); }
static void tok_enc(uint8_t *p, size_t e, uint32_t t) {
    for (size_t k = 0; k < e && k < 260; ++k) p[k] = k < 4 ? (uint8_t)(t >> (8 * k)) : (uint8_t)(t * 7u + k * 13u + 5u);
    if (e > 260) repeat256(p, 260, e);
}
static long tok_dec(const uint8_t *p, size_t e) {
    uint32_t t = 0;
    for (size_t k = 0; k < e && k < 4; ++k) t |= (uint32_t)p[k] << (8 * k);
    if (!repeats256(p, 260, e)) return -1;
    for (size_t k = 4; k < e && k < 260; ++k)
        if (p[k] != (uint8_t)(t * 7u + k * 13u + 5u)) return -1;
    return (long)t;
}
/* runs: list of [value, count] where value increases by `step` within a run */
static long run_v, run_n, run_first, run_cnt;
static int run_step;
static void runs_begin(const char *k, int step) {
    fprintf(out, ",\"%s\":[", k);
    run_n = 0;
    run_cnt = 0;
    run_step = step;
}
static void runs_flush(void) {
    if (run_n) {
        fprintf(out, run_cnt ? ",[%ld,%ld]" : "[%ld,%ld]", run_first, run_n);
        run_cnt++;
    }
    run_n = 0;
}
static void runs_add(long v) {
    if (run_n && v == run_v + run_step) {
        run_v = v;
        run_n++;
        return;
    }
    runs_flush();
    run_first = run_v = v;
    run_n = 1;
}
static void runs_end(void) {
    runs_flush();
    fputc(']', out);
}

#define MAXID 64

/* ------------------------------------------------------------------------ queue */
static struct {
    Region *q, *buf;
    uint32_t esz;
} Q[MAXID];

static int objid(int i) {
    unsigned long v = num(i);
    if (v >= MAXID) die("bad id");
    return (int)v;
}

static void c_qinit(void) { /* id cap esz storage? */
    int id = objid(1);
    uint32_t cap = (uint32_t)num(2), esz = (uint32_t)num(3);
    int has = (int)num(4);
    if (!Q[id].q) Q[id].q = tagged(TYPED(reg_new(sizeof(Queue_t))), 'Q', id);
    /* storage 2: the storage it has, if it is of the same size */
    Region *old = Q[id].buf, *buf = has == 2 && old && old->n == (size_t)cap * esz ? old : reg_new((size_t)cap * esz);
    volatile bool ret = false;
    CALL(ret = Queue_init((Queue_t *)Q[id].q->p, cap, esz, has ? buf->p : NULL));
    ev("QInit"); ev_i("id", id); ev_i("cap", cap); ev_i("esz", esz); ev_b("buf", has != 0); ev_b("ret", ret); ev_end();
    if (ret) { Q[id].buf = tagged(buf, 'Q', id); Q[id].esz = esz; }
    if (buf != old) reg_free(ret ? old : buf);
}
static Queue_t *qptr(int i, int *id) {
    if (isnil(i)) { *id = -1; return NULL; }
    *id = objid(i);
    return (Queue_t *)Q[*id].q->p;
}
static void c_qenq(void) { /* id|- bytes|- */
    int id;
    Queue_t *q = qptr(1, &id);
    Region *e = NULL;
    Buf b = {NULL, 0};
    if (!isnil(2)) { b = bytes(2); e = reg_const(b.p, b.n); }
    volatile bool ret = false;
    CALL(ret = Queue_enqueue(q, e ? e->p : NULL));
    ev("QEnq"); ev_i("id", id); ev_b("nil", e == NULL); ev_a("e", b.p, b.n); ev_b("ret", ret); ev_end();
    reg_free(e); free(b.p);
}
static void q_out(const char *name, int peek, bool (*f)(Queue_t *, uint8_t *)) { /* id|- out? [esz if id is nil] */
    int id;
    Queue_t *q = qptr(1, &id);
    int has = (int)num(2);
    size_t n = id >= 0 ? Q[id].esz : 4;
    Region *e = reg_new(n);
    volatile bool ret = false;
    if (id >= 0 && peek) { reg_hold(Q[id].q); }
    CALL(ret = f(q, has ? e->p : NULL));
    if (id >= 0 && peek) { reg_release(Q[id].q); }
    ev(name); ev_i("id", id); ev_b("nil", !has); ev_i("fill", fill_byte); ev_a("e", e->p, n); ev_b("ret", ret); ev_end();
    reg_free(e);
}
static bool f_front(Queue_t *q, uint8_t *e) { return Queue_front(q, e); }
static bool f_rear(Queue_t *q, uint8_t *e) { return Queue_rear(q, e); }
static void c_qdeq(void) { q_out("QDeq", 0, Queue_dequeue); }
static void c_qfront(void) { q_out("QFront", 1, f_front); }
static void c_qrear(void) { q_out("QRear", 1, f_rear); }
static void c_qstat(void) {
    int id = objid(1);
    const Queue_t *q = (Queue_t *)Q[id].q->p;
    volatile bool full = false, empty = false;
    reg_hold(Q[id].q);
    CALL(full = Queue_full(q); empty = Queue_empty(q));
    reg_release(Q[id].q);
    ev("QStat"); ev_i("id", id); ev_b("full", full); ev_b("empty", empty); ev_end();
}
static void c_qfill(void) { /* id token n : enqueue tokens token..token+n-1 */
    int id = objid(1);
    uint32_t t = (uint32_t)num(2), n = (uint32_t)num(3);
    Queue_t *q = (Queue_t *)Q[id].q->p;
    Region *e = reg_new(Q[id].esz);
    uint8_t *rets = calloc(n + 1, 1);
    const char *bad = "OK";
    for (uint32_t i = 0; i < n; ++i) {
        volatile bool ret = false;
        tok_enc(e->p, Q[id].esz, t + i);
        if (i % 256 == 0 || i + 1 == n) { CALL(ret = Queue_enqueue(q, e->p)); }
        else { LIGHT(ret = Queue_enqueue(q, e->p)); }
        if (strcmp(st, "OK")) bad = st;
        rets[i] = ret;
    }
    st = bad;
    ev("QFill"); ev_i("id", id); ev_i("t", t); ev_i("n", n);
    runs_begin("ret", 0); for (uint32_t i = 0; i < n; ++i) runs_add(rets[i]); runs_end();
    ev_end();
    free(rets); reg_free(e);
}
static void c_qdrain(void) { /* id n */
    int id = objid(1);
    uint32_t n = (uint32_t)num(2);
    Queue_t *q = (Queue_t *)Q[id].q->p;
    Region *e = reg_new(Q[id].esz);
    long *tok = calloc(n + 1, sizeof(long));
    uint32_t k = 0, fails = 0, after = 0;
    const char *bad = "OK";
    for (uint32_t i = 0; i < n; ++i) {
        volatile bool ret = false;
        if (i % 256 == 0 || i + 1 == n) { CALL(ret = Queue_dequeue(q, e->p)); }
        else { LIGHT(ret = Queue_dequeue(q, e->p)); }
        if (strcmp(st, "OK")) bad = st;
        if (ret) { tok[k++] = tok_dec(e->p, Q[id].esz); after += fails != 0; }
        else fails++;
    }
    st = bad;
    ev("QDrain"); ev_i("id", id); ev_i("n", n); ev_i("fails", fails); ev_i("late", after);
    runs_begin("tok", 1); for (uint32_t i = 0; i < k; ++i) runs_add(tok[i]); runs_end();
    ev_end();
    free(tok); reg_free(e);
}

/* A long history in short form: n times enqueue the next token, then dequeue; elements are two bytes, tokens
 * count modulo 65536.  Logged: how many enqueues and dequeues failed, and the tokens that came out as runs
 * [first, length high, length low], at most 20 of them. */
typedef struct { unsigned long n, cnt; uint32_t first, next; int logged; unsigned long efail, dfail; } Churn;
static void churn_flush(Churn *c) {
    if (c->cnt && c->logged < 20) fprintf(out, c->logged++ ? ",[%u,%lu,%lu]" : "[%u,%lu,%lu]", c->first, c->cnt >> 16, c->cnt & 0xFFFF);
    c->cnt = 0;
}
__attribute__((optimize("O2"))) static void churn_tok(Churn *c, const uint8_t *e) {
    uint32_t t = e[0] | (uint32_t)e[1] << 8;
    if (!c->cnt || t != c->next) {
        churn_flush(c);
        c->first = t;
    }
    c->cnt++;
    c->next = (t + 1) & 0xFFFF;
}
static void ev_ul(const char *k, unsigned long v) { fprintf(out, ",\"%s\":[%lu,%lu]", k, v >> 16, v & 0xFFFF); }
__attribute__((optimize("O2"))) static void churn(const char *name, void *q, uint32_t *prio, bool (*enq)(void *, uint8_t *, uint32_t *), bool (*deq)(void *, uint8_t *)) {
    int id = objid(1);
    uint32_t t = (uint32_t)num(2);
    Churn c = {num(3), 0, 0, 0, 0, 0, 0};
    Region *ei = reg_new(2), *eo = reg_new(2);
    const char *bad = "OK";
    ev(name); ev_i("id", id); ev_i("t", t); if (prio) ev_w("p", *prio); ev_ul("n", c.n); fputs(",\"tok\":[", out);
    for (unsigned long i = 0; i < c.n;) {
        unsigned long end = i + (1ul << 22) < c.n ? i + (1ul << 22) : c.n;
        volatile unsigned long at = i;
        CALL(for (unsigned long j = at; j < end; ++j) {
            ei->p[0] = (uint8_t)(t + j);
            ei->p[1] = (uint8_t)((t + j) >> 8);
            if (!enq(q, ei->p, prio)) c.efail++;
            if (deq(q, eo->p)) churn_tok(&c, eo->p);
            else c.dfail++;
        });
        i = end;
        if (strcmp(st, "OK")) bad = st;
        if (c.efail || c.dfail || c.logged || strcmp(st, "OK")) break;
    }
    churn_flush(&c);
    fputc(']', out);
    st = bad;
    ev_i("efail", (long)(c.efail > 9 ? 9 : c.efail)); ev_i("dfail", (long)(c.dfail > 9 ? 9 : c.dfail)); ev_end();
    reg_free(ei); reg_free(eo);
}
__attribute__((optimize("O2"))) static bool q_enq(void *q, uint8_t *e, uint32_t *p) { (void)p; return Queue_enqueue(q, e); }
__attribute__((optimize("O2"))) static bool q_deq(void *q, uint8_t *e) { return Queue_dequeue(q, e); }
static void c_qchurn(void) { /* id token n */
    churn("QChurn", Q[objid(1)].q->p, NULL, q_enq, q_deq);
}

/* --------------------------------------------------------------- priority queue */
static struct {
    Region *q, *buf, *pri;
    uint32_t esz;
} PQ[MAXID];

static void c_pinit(void) { /* id|- cap esz items? */
    int id = isnil(1) ? -1 : objid(1);
    uint32_t cap = (uint32_t)num(2), esz = (uint32_t)num(3);
    int has = (int)num(4);
    if (id >= 0 && !PQ[id].q) PQ[id].q = tagged(TYPED(reg_new(sizeof(PriorityQueue_t))), 'P', id);
    Region *oldb = id >= 0 ? PQ[id].buf : NULL, *oldp = id >= 0 ? PQ[id].pri : NULL;
    int again = has == 2 && oldb && oldb->n == (size_t)cap * esz && oldp->n == (size_t)cap * 4;
    Region *buf = again ? oldb : reg_new((size_t)cap * esz), *pri = again ? oldp : TYPED(reg_new((size_t)cap * 4));
    PriorityQueueItem_t items = {(uint32_t *)pri->p, buf->p};
    Region *it = TYPED(reg_const(&items, sizeof items));
    volatile bool ret = false;
    CALL(ret = PriorityQueue_init(id >= 0 ? (PriorityQueue_t *)PQ[id].q->p : NULL, cap, esz,
                                  has ? (PriorityQueueItem_t *)it->p : NULL));
    ev("PInit"); ev_i("id", id); ev_i("cap", cap); ev_i("esz", esz); ev_b("items", has != 0); ev_b("ret", ret); ev_end();
    reg_free(it);
    if (ret && id >= 0) { PQ[id].buf = tagged(buf, 'P', id); PQ[id].pri = tagged(pri, 'P', id); PQ[id].esz = esz; }
    if (!again) { int took = ret && id >= 0; reg_free(took ? oldb : buf); reg_free(took ? oldp : pri); }
}
static void c_penq(void) { /* id prio bytes */
    int id = objid(1);
    uint32_t prio = (uint32_t)num(2);
    Buf b = bytes(3);
    Region *e = reg_const(b.p, b.n), *p = TYPED(reg_const(&prio, 4));
    PriorityQueueItem_t item = {(uint32_t *)p->p, e->p};
    Region *it = TYPED(reg_const(&item, sizeof item));
    volatile bool ret = false;
    CALL(ret = PriorityQueue_enqueue((PriorityQueue_t *)PQ[id].q->p, (PriorityQueueItem_t *)it->p));
    ev("PEnq"); ev_i("id", id); ev_w("p", prio); ev_a("e", b.p, b.n); ev_b("ret", ret); ev_end();
    reg_free(e); reg_free(p); reg_free(it); free(b.p);
}
static void c_pdeq(void) { /* id */
    int id = objid(1);
    Region *e = reg_new(PQ[id].esz);
    volatile bool ret = false;
    CALL(ret = PriorityQueue_dequeue((PriorityQueue_t *)PQ[id].q->p, e->p));
    ev("PDeq"); ev_i("id", id); ev_i("fill", fill_byte); ev_a("e", e->p, PQ[id].esz); ev_b("ret", ret); ev_end();
    reg_free(e);
}
static void c_pstat(void) {
    int id = objid(1);
    volatile bool empty = false;
    reg_hold(PQ[id].q);
    CALL(empty = PriorityQueue_empty((PriorityQueue_t *)PQ[id].q->p));
    reg_release(PQ[id].q);
    ev("PStat"); ev_i("id", id); ev_b("empty", empty); ev_end();
}
/* priorities of a bulk fill: token t gets (pa*t + pb) mod pm, high half 0 */
static void c_pfill(void) { /* id token n pa pb pm */
    int id = objid(1);
    uint32_t t = (uint32_t)num(2), n = (uint32_t)num(3), pa = (uint32_t)num(4), pb = (uint32_t)num(5), pm = (uint32_t)num(6);
    Region *e = reg_new(PQ[id].esz), *p = TYPED(reg_new(4));
    uint8_t *rets = calloc(n + 1, 1);
    const char *bad = "OK";
    for (uint32_t i = 0; i < n; ++i) {
        volatile bool ret = false;
        uint32_t pr = (pa * (t + i) + pb) % pm;
        tok_enc(e->p, PQ[id].esz, t + i);
        memcpy(p->p, &pr, 4);
        PriorityQueueItem_t item = {(uint32_t *)p->p, e->p};
        CALL(ret = PriorityQueue_enqueue((PriorityQueue_t *)PQ[id].q->p, &item));
        if (strcmp(st, "OK")) bad = st;
        rets[i] = ret;
    }
    st = bad;
    ev("PFill"); ev_i("id", id); ev_i("t", t); ev_i("n", n); ev_i("pa", pa); ev_i("pb", pb); ev_i("pm", pm);
    runs_begin("ret", 0); for (uint32_t i = 0; i < n; ++i) runs_add(rets[i]); runs_end();
    ev_end();
    free(rets); reg_free(e); reg_free(p);
}
static void c_pdrain(void) { /* id n */
    int id = objid(1);
    uint32_t n = (uint32_t)num(2), k = 0, fails = 0, after = 0;
    Region *e = reg_new(PQ[id].esz);
    long *tok = calloc(n + 1, sizeof(long));
    const char *bad = "OK";
    for (uint32_t i = 0; i < n; ++i) {
        volatile bool ret = false;
        CALL(ret = PriorityQueue_dequeue((PriorityQueue_t *)PQ[id].q->p, e->p));
        if (strcmp(st, "OK")) bad = st;
        if (ret) { tok[k++] = tok_dec(e->p, PQ[id].esz); after += fails != 0; }
        else fails++;
    }
    st = bad;
    ev("PDrain"); ev_i("id", id); ev_i("n", n); ev_i("fails", fails); ev_i("late", after);
    fprintf(out, ",\"tok\":["); for (uint32_t i = 0; i < k; ++i) fprintf(out, i ? ",%ld" : "%ld", tok[i]); fputc(']', out);
    ev_end();
    free(tok); reg_free(e);
}
static bool p_enq(void *q, uint8_t *e, uint32_t *p) {
    PriorityQueueItem_t it = {p, e};
    return PriorityQueue_enqueue(q, &it);
}
static bool p_deq(void *q, uint8_t *e) { return PriorityQueue_dequeue(q, e); }
static void c_pchurn(void) { /* id token n priority */
    uint32_t prio = (uint32_t)num(4);
    Region *pr = TYPED(reg_data(&prio, 4));
    churn("PChurn", PQ[objid(1)].q->p, (uint32_t *)pr->p, p_enq, p_deq);
    reg_free(pr);
}

/* -------------------------------------------------------------------------- map */
static struct {
    Region *m, *k, *v;
    int ks, vs;
} M[MAXID];

static void c_minit(void) { /* id ksz vsz max keys? values? */
    int id = objid(1);
    int ks = (int)num(2), vs = (int)num(3), mx = (int)num(4), hk = (int)num(5), hv = (int)num(6);
    if (!M[id].m) M[id].m = tagged(TYPED(reg_new(sizeof(Map_t))), 'M', id);
    size_t kn = (size_t)ks * (size_t)mx, vn = (size_t)vs * (size_t)mx;
    Region *oldk = M[id].k, *oldv = M[id].v;
    Region *k = hk == 2 && oldk && oldk->n == kn ? oldk : reg_new(kn), *v = hv == 2 && oldv && oldv->n == vn ? oldv : reg_new(vn);
    volatile bool ret = false;
    CALL(ret = Map_init((Map_t *)M[id].m->p, hk ? k->p : NULL, hv ? v->p : NULL, ks, vs, mx));
    ev("MInit"); ev_i("id", id); ev_i("ks", ks); ev_i("vs", vs); ev_i("max", mx); ev_b("k", hk != 0); ev_b("v", hv != 0); ev_b("ret", ret); ev_end();
    if (ret) { M[id].k = tagged(k, 'M', id); M[id].v = tagged(v, 'M', id); M[id].ks = ks; M[id].vs = vs; }
    if (k != oldk) reg_free(ret ? oldk : k);
    if (v != oldv) reg_free(ret ? oldv : v);
}
static Map_t *mptr(int i, int *id) {
    if (isnil(i)) { *id = -1; return NULL; }
    *id = objid(i);
    return (Map_t *)M[*id].m->p;
}
/* a key: bytes of its own, or (@k3, @v3) those of an entry where they lie in the storage of the map */
static uint8_t *mkey(int i, int id, Buf *kb, Region **own) {
    const char *a = arg(i);
    *own = NULL;
    if (a[0] != '@') {
        *kb = bytes(i);
        *own = reg_const(kb->p, kb->n);
        return (*own)->p;
    }
    size_t at = strtoul(a + 2, NULL, 10);
    uint8_t *p = a[1] == 'k' ? M[id].k->p + at * (size_t)M[id].ks : M[id].v->p + at * (size_t)M[id].vs;
    kb->n = (size_t)M[id].ks;
    kb->p = malloc(kb->n + 1);
    memcpy(kb->p, p, kb->n);
    return p;
}
static void c_mins(void) { /* id|- key value */
    int id;
    Map_t *m = mptr(1, &id);
    Buf kb, vb = bytes(3);
    Region *k, *v = reg_const(vb.p, vb.n);
    const uint8_t *key = mkey(2, id, &kb, &k);
    volatile bool ret = false;
    CALL(ret = Map_insert(m, key, v->p));
    ev("MIns"); ev_i("id", id); ev_a("k", kb.p, kb.n); ev_a("v", vb.p, vb.n); ev_b("ret", ret); ev_end();
    if (k) reg_free(k);
    reg_free(v); free(kb.p); free(vb.p);
}
static void c_mget(void) { /* id|- key */
    int id;
    Map_t *m = mptr(1, &id);
    Buf kb;
    size_t n = id >= 0 ? (size_t)M[id].vs : 4;
    Region *k, *v = reg_new(n);
    const uint8_t *key = mkey(2, id, &kb, &k);
    volatile bool ret = false;
    if (id >= 0) reg_hold(M[id].m);
    CALL(ret = Map_getValue(m, key, v->p));
    if (id >= 0) reg_release(M[id].m);
    ev("MGet"); ev_i("id", id); ev_a("k", kb.p, kb.n); ev_i("fill", fill_byte); ev_a("v", v->p, n); ev_b("ret", ret); ev_end();
    if (k) reg_free(k);
    reg_free(v); free(kb.p);
}
static void c_mfill(void) { /* id k0 n v0 : insert key token k0+i with value token v0+i */
    int id = objid(1);
    uint32_t k0 = (uint32_t)num(2), n = (uint32_t)num(3), v0 = (uint32_t)num(4);
    Region *k = reg_new((size_t)M[id].ks), *v = reg_new((size_t)M[id].vs);
    uint8_t *rets = calloc(n + 1, 1);
    const char *bad = "OK";
    for (uint32_t i = 0; i < n; ++i) {
        volatile bool ret = false;
        tok_enc(k->p, (size_t)M[id].ks, k0 + i);
        tok_enc(v->p, (size_t)M[id].vs, v0 + i);
        if (i % 256 == 0 || i + 1 == n) { CALL(ret = Map_insert((Map_t *)M[id].m->p, k->p, v->p)); }
        else { LIGHT(ret = Map_insert((Map_t *)M[id].m->p, k->p, v->p)); }
        if (strcmp(st, "OK")) bad = st;
        rets[i] = ret;
    }
    st = bad;
    ev("MFill"); ev_i("id", id); ev_i("k0", k0); ev_i("n", n); ev_i("v0", v0);
    runs_begin("ret", 0); for (uint32_t i = 0; i < n; ++i) runs_add(rets[i]); runs_end();
    ev_end();
    free(rets); reg_free(k); reg_free(v);
}
static void c_mlook(void) { /* id k0 n step : look up key tokens k0, k0+step, ... ; logs value tokens, -2 for absent */
    int id = objid(1);
    uint32_t k0 = (uint32_t)num(2), n = (uint32_t)num(3), step = (uint32_t)num(4);
    Region *k = reg_new((size_t)M[id].ks), *v = reg_new((size_t)M[id].vs);
    long *tok = calloc(n + 1, sizeof(long));
    const char *bad = "OK";
    for (uint32_t i = 0; i < n; ++i) {
        volatile bool ret = false;
        tok_enc(k->p, (size_t)M[id].ks, k0 + i * step);
        CALL(ret = Map_getValue((Map_t *)M[id].m->p, k->p, v->p));
        if (strcmp(st, "OK")) bad = st;
        tok[i] = ret ? tok_dec(v->p, (size_t)M[id].vs) : -2;
    }
    st = bad;
    ev("MLook"); ev_i("id", id); ev_i("k0", k0); ev_i("n", n); ev_i("step", step);
    fprintf(out, ",\"tok\":["); for (uint32_t i = 0; i < n; ++i) fprintf(out, i ? ",%ld" : "%ld", tok[i]); fputc(']', out);
    ev_end();
    free(tok); reg_free(k); reg_free(v);
}

/* -------------------------------------------------------------------- scheduler */
#define NTASK 32
static struct {
    Region *t;
    unsigned n;
} S[MAXID];
static int running[256], nrunning; /* tables with a pass in progress */
static struct {
    int *prog;
    int n, next, cap;
} T[NTASK];
static void task(int k) {
    const char *keep = st;
    int stepping = pre.active;
    if (stepping) { pre.active = 0; tf_off(); }
    st = "OK";
    ev("TaskStart"); ev_i("id", nrunning ? running[nrunning - 1] : -1); ev_i("k", k); ev_end();
    if (T[k].next < T[k].n) run_script(T[k].prog[T[k].next++]);
    st = "OK";
    ev("TaskEnd"); ev_i("k", k); ev_end();
    st = keep;
    if (stepping) { pre.active = 1; tf_on(); }
}
#define TF(n) static void task##n(void) { task(n); }
TF(0) TF(1) TF(2) TF(3) TF(4) TF(5) TF(6) TF(7) TF(8) TF(9) TF(10) TF(11) TF(12) TF(13) TF(14) TF(15)
TF(16) TF(17) TF(18) TF(19) TF(20) TF(21) TF(22) TF(23) TF(24) TF(25) TF(26) TF(27) TF(28) TF(29) TF(30) TF(31)
static void (*const taskf[NTASK])(void) = {
    task0, task1, task2, task3, task4, task5, task6, task7, task8, task9, task10, task11, task12, task13, task14, task15,
    task16, task17, task18, task19, task20, task21, task22, task23, task24, task25, task26, task27, task28, task29, task30, task31};

/* table snapshot: [task number, active] per slot; -1 no function, -2 some other function */
static void ev_tab(int id) {
    SchedulerTask_t *t = (SchedulerTask_t *)S[id].t->p;
    fprintf(out, ",\"tab\":[");
    for (unsigned i = 0; i < S[id].n; ++i) {
        int k = -2;
        if (!t[i].function) k = -1;
        for (int j = 0; j < NTASK; ++j)
            if (t[i].function == taskf[j]) k = j;
        fprintf(out, i ? ",[%d,%d]" : "[%d,%d]", k, t[i].active ? 1 : 0);
    }
    fputc(']', out);
}
static void c_stable(void) { /* id slots : a fresh table filled with stray values (not initialised) */
    int id = objid(1);
    unsigned n = (unsigned)num(2);
    reg_free(S[id].t);
    S[id].t = tagged(TYPED(reg_new(n * sizeof(SchedulerTask_t))), 'S', id);
    S[id].n = n;
    mem_calls++;
    SchedulerTask_t *t = (SchedulerTask_t *)S[id].t->p;
    memset(t, 0, n * sizeof *t);
    for (unsigned i = 0; i < n; ++i) { t[i].function = taskf[NTASK - 1 - i % 4]; t[i].active = i % 2; }
    st = "OK";
    ev("STable"); ev_i("id", id); ev_i("n", n); ev_tab(id); ev_end();
}
static void c_sinit(void) { /* id n */
    int id = objid(1);
    uint32_t n = (uint32_t)num(2);
    CALL(Scheduler_init((SchedulerTask_t *)S[id].t->p, n));
    ev("SInit"); ev_i("id", id); ev_i("n", n); ev_tab(id); ev_end();
}
static void c_sadd(void) { /* id n k active */
    int id = objid(1);
    uint32_t n = (uint32_t)num(2);
    int k = (int)num(3), a = (int)num(4);
    SchedulerTask_t nt;
    memset(&nt, 0, sizeof nt);
    nt.function = taskf[k];
    nt.active = a != 0;
    Region *r = TYPED(reg_const(&nt, sizeof nt));
    volatile bool ret = false;
    CALL(ret = Scheduler_addTask((SchedulerTask_t *)S[id].t->p, n, (SchedulerTask_t *)r->p));
    ev("SAdd"); ev_i("id", id); ev_i("n", n); ev_i("k", k); ev_i("a", a); ev_b("ret", ret); ev_tab(id); ev_end();
    reg_free(r);
}
static void c_sset(void) { /* id slot k|-1 active : the caller edits its table */
    int id = objid(1);
    unsigned s = (unsigned)num(2);
    long k = strtol(arg(3), NULL, 0);
    int a = (int)num(4);
    SchedulerTask_t *t = (SchedulerTask_t *)S[id].t->p;
    t[s].function = k < 0 ? NULL : taskf[k];
    t[s].active = a != 0;
    mem_calls++;
    st = "OK";
    ev("SSet"); ev_i("id", id); ev_i("s", s); ev_i("k", k); ev_i("a", a); ev_tab(id); ev_end();
}
static void c_srun(void) { /* id n */
    int id = objid(1);
    uint32_t n = (uint32_t)num(2);
    st = "OK";
    ev("RunStart"); ev_i("id", id); ev_i("n", n); ev_end();
    if (nrunning >= 256) die("passes too deep");
    running[nrunning++] = id;
    CALL(Scheduler_run((SchedulerTask_t *)S[id].t->p, n));
    nrunning--;
    ev("RunEnd"); ev_i("id", id); ev_i("n", n); ev_tab(id); ev_end();
}
static void c_prog(void) { /* task script... : what the task does on its next calls */
    int k = (int)num(1);
    for (int i = 2; i < cur->n; ++i) {
        if (T[k].n == T[k].cap) {
            T[k].cap = T[k].cap * 2 + 8;
            T[k].prog = realloc(T[k].prog, (size_t)T[k].cap * sizeof(int));
        }
        int s = script_id(cur->v[i]);
        if (s < 0) die("unknown script");
        T[k].prog[T[k].n++] = s;
    }
}
static void c_progclear(void) {
    for (int k = 0; k < NTASK; ++k) T[k].n = T[k].next = 0;
    if (!depth) nscripts = 0;
}

/* ------------------------------------------------------------------------- JSON */
static struct {
    Region *b;
    size_t n;
} J[MAXID];
static void ev_txt(int id) { /* text up to the NUL, or the whole area when there is none */
    size_t l = strnlen((char *)J[id].b->p, J[id].n);
    ev_b("term", l < J[id].n);
    ev_a("txt", J[id].b->p, l);
}
static void c_jbuf(void) { /* id size text : a buffer holding the given text */
    int id = objid(1);
    size_t n = num(2);
    Buf b = bytes(3);
    reg_free(J[id].b);
    J[id].b = tagged(reg_new(n), 'J', id);
    J[id].n = n;
    memcpy(J[id].b->p, b.p, b.n + 1 <= n ? b.n + 1 : n);
    mem_calls++;
    st = "OK";
    ev("JBuf"); ev_i("id", id); ev_room("n", n); ev_txt(id); ev_end();
    free(b.p);
}
static void c_jstart(void) { /* id size */
    int id = objid(1);
    size_t n = num(2);
    volatile bool ret = false;
    CALL(ret = Json_startString((char *)J[id].b->p, n));
    ev("JStart"); ev_i("id", id); ev_room("n", n); ev_b("ret", ret); ev_txt(id); ev_end();
}
static void c_jadd(void) { /* id size key value */
    int id = objid(1);
    size_t n = num(2);
    Buf kb = bytes(3), vb = bytes(4);
    Region *k = reg_str(&kb), *v = reg_str(&vb);
    volatile bool ret = false;
    CALL(ret = Json_addData((char *)J[id].b->p, n, (char *)k->p, (char *)v->p));
    ev("JAdd"); ev_i("id", id); ev_room("n", n); ev_a("k", kb.p, kb.n); ev_a("v", vb.p, vb.n); ev_b("ret", ret); ev_txt(id); ev_end();
    reg_free(k); reg_free(v); free(kb.p); free(vb.p);
}
static void c_jend(void) {
    int id = objid(1);
    size_t n = num(2);
    volatile bool ret = false;
    CALL(ret = Json_endString((char *)J[id].b->p, n));
    ev("JEnd"); ev_i("id", id); ev_room("n", n); ev_b("ret", ret); ev_txt(id); ev_end();
}
static void find(const char *name, int id, const uint8_t *doc, size_t n, int ki, int mi) {
    Buf kb = bytes(ki);
    size_t m = num(mi);
    Region *k = reg_str(&kb), *v = reg_new(m), *d = doc ? reg_const(doc, n) : NULL;
    volatile bool ret = false;
    if (!d) reg_hold(J[id].b);
    CALL(ret = Json_findByKey(d ? (char *)d->p : (char *)J[id].b->p, n, (char *)k->p, (char *)v->p, m));
    if (!d) reg_release(J[id].b);
    size_t l = strnlen((char *)v->p, m);
    ev(name); ev_i("id", id); ev_room("n", n); ev_a("k", kb.p, kb.n); ev_room("m", m); ev_b("ret", ret);
    ev_b("term", l < m); ev_a("v", v->p, ret ? l : 0);
    if (doc) ev_a("doc", doc, n);
    ev_end();
    reg_free(k); reg_free(v); reg_free(d); free(kb.p);
}
static void c_jfind(void) { /* id size key max : look up in the buffer being built */
    find("JFind", objid(1), NULL, num(2), 3, 4);
}
static void c_jdoc(void) { /* doc key max : look up in a literal document of exactly these bytes */
    Buf d = bytes(1);
    find("JDoc", 0, d.p, d.n, 2, 3);
    free(d.p);
}

/* a text of several GiB: white space between two parts of a document, outside its strings */
static void c_jpad(void) { /* part n part key max */
    Buf a = bytes(1), b = bytes(3), kb = bytes(4);
    size_t pad = num(2), n = a.n + pad + b.n, m = num(5);
    Region *d = reg_new(n), *k = reg_str(&kb), *v = reg_new(m);
    memcpy(d->p, a.p, a.n);
    memset(d->p + a.n, ' ', pad);
    memcpy(d->p + a.n + pad, b.p, b.n);
    volatile bool ret = false;
    CALL(ret = Json_findByKey((char *)d->p, n, (char *)k->p, (char *)v->p, m));
    size_t l = strnlen((char *)v->p, m);
    ev("JPad"); ev_a("a", a.p, a.n); ev_a("b", b.p, b.n); ev_a("k", kb.p, kb.n); ev_room("m", m); ev_b("ret", ret);
    ev_b("term", l < m); ev_a("v", v->p, ret ? l : 0); ev_end();
    reg_free(d); reg_free(k); reg_free(v); free(a.p); free(b.p); free(kb.p);
}

/* ----------------------------------------------------------------------- base64 */
static void c_b64e(void) { /* data max [big: results logged in part] */
    Buf d = bytes(1);
    size_t m = num(2);
    Region *i = reg_const(d.p, d.n), *o = reg_new(m);
    volatile int32_t ret = 0;
    CALL(ret = Base64_encode((char *)i->p, d.n, (char *)o->p, m));
    size_t l = ret == 0 ? strnlen((char *)o->p, m) : 0;
    ev("B64E"); ev_data(1, &d); ev_room("m", m); ev_b("ok", ret == 0); ev_b("term", ret == 0 && l < m); ev_a("o", o->p, l); ev_end();
    reg_free(i); reg_free(o); free(d.p);
}
static void c_b64d(void) { /* text max len : logs the first len bytes of the output on success */
    Buf d = bytes(1);
    size_t m = num(2), l = num(3);
    Region *i = reg_const(d.p, d.n), *o = reg_new(m);
    volatile int32_t ret = 0;
    CALL(ret = Base64_decode((char *)i->p, d.n, o->p, m));
    ev("B64D"); ev_data(1, &d); ev_room("m", m); ev_b("ok", ret == 0); ev_a("o", o->p, ret == 0 ? (l < m ? l : m) : 0); ev_end();
    reg_free(i); reg_free(o); free(d.p);
}
static void c_b64rt(void) { /* data : encode into an exact-fit buffer, then decode spellings of it into exact-fit buffers
                             * spellings: 0 as is, 1 without padding, 2 URL-safe, 3 URL-safe without padding */
    Buf d = bytes(1);
    size_t el = 4 * ((d.n + 2) / 3);
    Region *i = reg_const(d.p, d.n), *o = reg_new(el + 1);
    volatile int32_t ret = 0;
    CALL(ret = Base64_encode((char *)i->p, d.n, (char *)o->p, el + 1));
    size_t l = ret == 0 ? strnlen((char *)o->p, el + 1) : 0;
    ev("B64E"); ev_data(1, &d); ev_i("m", (long)(el + 1)); ev_b("ok", ret == 0); ev_b("term", ret == 0 && l <= el); ev_a("o", o->p, l); ev_end();
    uint8_t *t = malloc(l + 1);
    for (int s = 0; s < 4; ++s) {
        memcpy(t, o->p, l);
        size_t tl = l;
        if (s & 1) while (tl && t[tl - 1] == '=') tl--;
        if (s & 2) for (size_t k = 0; k < tl; ++k) t[k] = t[k] == '+' ? '-' : t[k] == '/' ? '_' : t[k];
        Region *ti = reg_const(t, tl), *to = reg_new(d.n);
        volatile int32_t r2 = 0;
        CALL(r2 = Base64_decode((char *)ti->p, tl, to->p, d.n));
        ev("B64RT"); ev_data(1, &d); ev_i("sp", s); ev_b("ok", r2 == 0);
        ev_a("o", to->p, d.n);
        ev_end();
        reg_free(ti); reg_free(to);
    }
    free(t); reg_free(i); reg_free(o); free(d.p);
}

/* ------------------------------------------------------------------------ sorts */
typedef struct Ctx { /* one sort in progress */
    int mode, es;
    uint8_t *seen;
    int seen_n, seen_cap; /* seen_cap 0: arguments are not recorded */
    long calls, hook_at;
    int hook_script;
    struct Ctx *outer;
} Ctx;
static Ctx *volatile cx;
static long hook_at;
static int hook_script = -1;

static void see(Ctx *c, const uint8_t *e) {
    for (int i = 0; i < c->seen_n; ++i)
        if (!memcmp(c->seen + (size_t)i * c->es, e, (size_t)c->es)) return;
    if (c->seen_n < c->seen_cap) memcpy(c->seen + (size_t)(c->seen_n++) * c->es, e, (size_t)c->es);
}
static int signed16(const uint8_t *p) { return (int16_t)(p[0] | p[1] << 8); }
static bool compare(void *a, void *b) {
    const uint8_t *x = a, *y = b;
    Ctx *c = cx;
    int mode = c->mode, es = c->es;
    c->calls++;
    if (c->seen_cap) { see(c, x); see(c, y); }
    bool r = false;
    switch (mode) {
        case 0: r = x[0] > y[0]; break;                                   /* first byte */
        case 1: r = memcmp(x, y, (size_t)es) > 0; break;                  /* all bytes, lexicographic */
        case 2: r = x[0] < y[0]; break;                                   /* first byte, descending */
        case 3: r = signed16(x) > signed16(y); break;                     /* signed 16-bit little-endian */
        case 4: r = x[0] % 4 > y[0] % 4; break;                           /* classes of the first byte */
        case 5: r = false; break;                                         /* all equal */
        case 6: r = (x[0] | x[1] << 8) > (y[0] | y[1] << 8); break;       /* unsigned 16-bit */
        case 7: r = x[es - 1] > y[es - 1]; break;                         /* last byte */
        default: die("comparator");
    }
    if (c->hook_script >= 0 && (c->hook_at == 0 || c->calls == c->hook_at)) {
        const char *keep_st = st;
        run_script(c->hook_script);
        st = keep_st;
    }
    return r;
}
#define SORTING(c, m, e, s, cap)                                                     \
    Ctx c = {m, e, s, 0, cap, 0, hook_at, hook_script, cx};                          \
    hook_script = -1;                                                                \
    cx = &c
static void do_sort(const char *alg, byte_t *p, int n, int es) {
    if (!strcmp(alg, "bubble")) BubbleSort_sort(p, n, es, compare);
    else if (!strcmp(alg, "heap")) HeapSort_sort(p, n, es, compare);
    else if (!strcmp(alg, "insertion")) InsertionSort_sort(p, n, es, compare);
    else if (!strcmp(alg, "selection")) SelectionSort_sort(p, n, es, compare);
    else die("algorithm");
}
static void c_hook(void) { /* k script : on the k-th comparison of the next sort (k 0: on every one) run the script */
    hook_at = (long)num(1);
    hook_script = script_id(arg(2));
    if (hook_script < 0) die("unknown script");
}
static void arr2(const uint8_t *p, int n, int es) {
    fputc('[', out);
    for (int i = 0; i < n; ++i) { if (i) fputc(',', out); arr(p + (size_t)i * es, (size_t)es); }
    fputc(']', out);
}
static void c_sort(void) { /* alg esz mode data : elements in full */
    const char *alg = arg(1);
    int es = (int)num(2), mode = (int)num(3);
    Buf d = bytes(4);
    int n = (int)(d.n / (size_t)es);
    Region *r = reg_data(d.p, d.n);
    uint8_t *mine = malloc((size_t)(2 * n + 8) * es);
    SORTING(c, mode, es, mine, 2 * n + 8);
    CALL(do_sort(alg, r->p, n, es));
    cx = c.outer;
    ev("Sort"); ev_s("alg", alg); ev_i("es", es); ev_i("mode", mode);
    fprintf(out, ",\"in\":"); arr2(d.p, n, es);
    fprintf(out, ",\"out\":"); arr2(r->p, n, es);
    fprintf(out, ",\"seen\":"); arr2(mine, c.seen_n, es);
    ev_end();
    free(mine); reg_free(r); free(d.p);
}
/* big arrays: element i = key(2 bytes LE) tag(3 bytes LE) filler; es >= 5; mode 6 compares the key.
 * keys: pattern name and parameters, logged in full */
static void c_sortn(void) { /* alg esz n a b m [d] : key i = (a*x + b) mod m, x = i, or (i / d) xor 1 for d > 0 */
    const char *alg = arg(1);
    int es = (int)num(2), n = (int)num(3);
    uint32_t a = (uint32_t)num(4), b = (uint32_t)num(5), m = (uint32_t)num(6), d = cur->n > 7 ? (uint32_t)num(7) : 0;
    Region *r = reg_new((size_t)n * es);
    for (int i = 0; i < n; ++i) {
        uint8_t *p = r->p + (size_t)i * es;
        uint32_t k = (a * (d ? ((uint32_t)i / d) ^ 1 : (uint32_t)i) + b) % m;
        for (int j = 0; j < es && j < 261; ++j) p[j] = (uint8_t)((uint32_t)i * 11u + (uint32_t)j * 29u + k * 3u);
        if (es > 261) repeat256(p, 261, (size_t)es);
        p[0] = (uint8_t)k; p[1] = (uint8_t)(k >> 8);
        p[2] = (uint8_t)i; p[3] = (uint8_t)(i >> 8); p[4] = (uint8_t)(i >> 16);
    }
    SORTING(c, 6, es, NULL, 0);
    CALL(do_sort(alg, r->p, n, es));
    cx = c.outer;
    ev("SortN"); ev_s("alg", alg); ev_i("es", es); ev_i("n", n); ev_i("a", a); ev_i("b", b); ev_i("m", m); ev_i("d", d);
    fprintf(out, ",\"out\":[");
    for (int i = 0; i < n; ++i) { /* [key, tag], or [-1,-1] when the filler does not belong to them */
        uint8_t *p = r->p + (size_t)i * es;
        long k = p[0] | p[1] << 8, t = p[2] | p[3] << 8 | (long)p[4] << 16;
        if (!repeats256(p, 261, (size_t)es)) k = t = -1;
        for (int j = 5; j < es && j < 261 && t >= 0; ++j)
            if (p[j] != (uint8_t)((uint32_t)t * 11u + (uint32_t)j * 29u + (uint32_t)k * 3u)) { k = t = -1; break; }
        fprintf(out, i ? ",[%ld,%ld]" : "[%ld,%ld]", k, t);
    }
    fputc(']', out);
    ev_end();
    reg_free(r);
}
/* so many elements that the result is logged in runs: all have key 1 but element `at`, whose key is 0.  es 1: the key
 * alone; es >= 8: key (2 bytes), number (4 bytes LE), filler.  Runs [key, number of the first (high and low
 * half; -1: none), how many], at most 8 */
static void c_sortg(void) { /* alg esz n at */
    const char *alg = arg(1);
    size_t es = num(2), n = num(3), at = num(4);
    Region *r = reg_new(n * es);
    if (es == 1) { memset(r->p, 1, n); r->p[at] = 0; }
    else for (size_t i = 0; i < n; ++i) {
        uint8_t *p = r->p + i * es;
        uint32_t t = (uint32_t)i;
        memset(p, (int)(t * 11u), es);
        p[0] = i != at; p[1] = 0;
        memcpy(p + 2, &t, 4);
    }
    SORTING(c, es == 1 ? 0 : 6, (int)es, NULL, 0);
    CALL(do_sort(alg, r->p, (int)n, (int)es));
    cx = c.outer;
    ev("SortG"); ev_s("alg", alg); ev_i("es", (long)es); ev_ul("n", n); ev_ul("at", at);
    fprintf(out, ",\"runs\":[");
    size_t i = 0;
    for (int listed = 0; i < n && listed < 8; ++listed) {
        long key = -1, first = -1, count = 0;
        for (; i < n; ++i, ++count) {
            uint8_t *p = r->p + i * es;
            long k = p[0], t = -1;
            if (es > 1) {
                uint32_t v;
                memcpy(&v, p + 2, 4);
                t = v;
                for (size_t j = 6; j < es; ++j) if (p[j] != (uint8_t)(v * 11u)) k = -2;
                if (p[1]) k = -2;
            }
            if (count && (k != key || (t >= 0 && t != first + count))) break;
            if (!count) { key = k; first = t; }
        }
        fprintf(out, "%s[%ld,%ld,%ld,%ld]", listed ? "," : "", key, first < 0 ? -1 : first >> 16, first < 0 ? 0 : first & 65535, count);
    }
    fputc(']', out);
    ev_b("all", i == n);
    ev_end();
    reg_free(r);
}


/* read-only input of several GiB: one MiB, byte k of which is a*k + b, mapped over and over */
static const uint8_t *rows(unsigned a, unsigned b, size_t n) {
    size_t chunk = 1 << 20, all = (n + PAGE - 1) / PAGE * PAGE;
    int fd = memfd_create("rows", 0);
    if (fd < 0 || ftruncate(fd, (off_t)chunk)) die("memfd");
    uint8_t *w = mmap(NULL, chunk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (w == MAP_FAILED) die("mmap");
    for (size_t k = 0; k < chunk; ++k) w[k] = (uint8_t)(a * k + b);
    munmap(w, chunk);
    uint8_t *m = mmap(NULL, all + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) die("mmap");
    for (size_t k = 0; k < all; k += chunk)
        if (mmap(m + PAGE + k, all - k < chunk ? all - k : chunk, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap");
    close(fd);
    return m + PAGE;
}
static void rows_free(const uint8_t *p, size_t n) { munmap((void *)(p - PAGE), (n + PAGE - 1) / PAGE * PAGE + 2 * PAGE); }

/* -------------------------------------------------------------------------- CRC */
typedef struct {
    const char *name;
    int width, flag; /* flag: takes final_crc */
    uint8_t (*f8f)(const uint8_t *, uint32_t, bool, const uint8_t *);
    uint8_t (*f8)(const uint8_t *, uint32_t, const uint8_t *);
    uint16_t (*f16f)(const uint8_t *, uint32_t, bool, const uint16_t *);
    uint16_t (*f16)(const uint8_t *, uint32_t, const uint16_t *);
    uint32_t (*f32f)(const uint8_t *, uint32_t, bool, const uint32_t *);
    uint32_t (*f32)(const uint8_t *, uint32_t, const uint32_t *);
} Crc;
#define V8F(n) {#n, 8, 1, n, 0, 0, 0, 0, 0},
#define V8(n) {#n, 8, 0, 0, n, 0, 0, 0, 0},
#define V16F(n) {#n, 16, 1, 0, 0, n, 0, 0, 0},
#define V16(n) {#n, 16, 0, 0, 0, 0, n, 0, 0},
#define V32F(n) {#n, 32, 1, 0, 0, 0, 0, n, 0},
#define V32(n) {#n, 32, 0, 0, 0, 0, 0, 0, n},
static const Crc crcs[] = {CRC_LIST};
static const Crc *crc_by_name(const char *s) {
    for (size_t i = 0; i < sizeof crcs / sizeof crcs[0]; ++i)
        if (!strcmp(crcs[i].name, s)) return &crcs[i];
    die("unknown CRC");
    return NULL;
}
static uint32_t crc_call(const Crc *c, const uint8_t *p, uint32_t n, bool fin, const void *last) {
    if (c->f8f) return c->f8f(p, n, fin, last);
    if (c->f8) return c->f8(p, n, last);
    if (c->f16f) return c->f16f(p, n, fin, last);
    if (c->f16) return c->f16(p, n, last);
    if (c->f32f) return c->f32f(p, n, fin, last);
    return c->f32(p, n, last);
}
static Region *reg_word(uint32_t v, int width) { /* little-endian host */
    return TYPED(reg_const(&v, (size_t)width / 8));
}
static void c_crc(void) { /* name data : one final call */
    const Crc *c = crc_by_name(arg(1));
    Buf d = bytes(2);
    Region *r = reg_const(d.p, d.n);
    volatile uint32_t ret = 0;
    CALL(ret = crc_call(c, r->p, (uint32_t)d.n, true, NULL));
    ev("Crc"); ev_s("v", c->name); ev_data(2, &d); ev_w("ret", ret); ev_end();
    reg_free(r); free(d.p);
}
static void c_gcrc(void) { /* name byte n : one final call on n equal bytes */
    const Crc *c = crc_by_name(arg(1));
    unsigned b = (unsigned)num(2);
    size_t n = num(3);
    const uint8_t *d = rows(0, b, n);
    volatile uint32_t ret = 0;
    CALL(ret = crc_call(c, d, (uint32_t)n, true, NULL));
    ev("CrcG"); ev_s("v", c->name); ev_i("b", b); ev_ul("n", n); ev_w("ret", ret); ev_end();
    rows_free(d, n);
}
static struct {
    const Crc *c;
    int started;
    uint32_t reg;
    uint8_t *msg; /* the message so far */
    size_t n;
} CS[MAXID];
static void c_cnew(void) { /* stream name */
    int id = objid(1);
    CS[id].c = crc_by_name(arg(2));
    CS[id].started = 0;
    CS[id].n = 0;
    st = "OK";
    ev("CNew"); ev_i("id", id); ev_s("v", CS[id].c->name); ev_end();
}
static void c_cchunk(void) { /* stream data final */
    int id = objid(1);
    Buf d = bytes(2);
    int fin = (int)num(3);
    Region *r = reg_const(d.p, d.n), *l = CS[id].started ? reg_word(CS[id].reg, CS[id].c->width) : NULL;
    volatile uint32_t ret = 0;
    CALL(ret = crc_call(CS[id].c, r->p, (uint32_t)d.n, fin != 0, l ? l->p : NULL));
    CS[id].msg = realloc(CS[id].msg, CS[id].n + d.n + 1);
    memcpy(CS[id].msg + CS[id].n, d.p, d.n);
    CS[id].n += d.n;
    volatile uint32_t whole = 0;
    if (fin) { /* the same message in one call */
        const char *bad = st;
        Region *w = reg_const(CS[id].msg, CS[id].n);
        CALL(whole = crc_call(CS[id].c, w->p, (uint32_t)CS[id].n, true, NULL));
        if (strcmp(bad, "OK")) st = bad;
        reg_free(w);
    }
    ev("CChunk"); ev_i("id", id); ev_data(2, &d); ev_b("fin", fin); ev_w("ret", ret); ev_w("whole", whole); ev_end();
    CS[id].reg = ret;
    CS[id].started = 1;
    reg_free(r); reg_free(l); free(d.p);
}
static void c_ctab(void) { /* width poly : table calculator */
    int w = (int)num(1);
    uint32_t poly = (uint32_t)num(2);
    Region *t = TYPED(reg_new(256u * (size_t)w / 8));
    if (w == 8) CALL(Crc8Base_tableCalculator((uint8_t)poly, t->p));
    else if (w == 16) CALL(Crc16Base_tableCalculator((uint16_t)poly, (uint16_t *)t->p));
    else CALL(Crc32Base_tableCalculator(poly, (uint32_t *)t->p));
    ev("CTab"); ev_i("w", w); ev_w("poly", poly);
    fprintf(out, ",\"tab\":[");
    for (int i = 0; i < 256; ++i) {
        uint32_t v = w == 8 ? t->p[i] : w == 16 ? ((uint16_t *)t->p)[i] : ((uint32_t *)t->p)[i];
        fprintf(out, i ? ",[%u,%u]" : "[%u,%u]", v >> 16, v & 0xFFFFu);
    }
    fputc(']', out);
    ev_end();
    reg_free(t);
}
static void c_cbase(void) { /* width poly init xor refout refin finalxor data : table calculator, then base function */
    int w = (int)num(1);
    uint32_t poly = (uint32_t)num(2), init = (uint32_t)num(3), x = (uint32_t)num(4);
    int ro = (int)num(5), ri = (int)num(6), fx = (int)num(7);
    Buf d = bytes(8);
    Region *r = reg_const(d.p, d.n), *t = TYPED(reg_new(256u * (size_t)w / 8)), *ct;
    volatile uint32_t ret = 0;
    if (w == 8) {
        CALL(Crc8Base_tableCalculator((uint8_t)poly, t->p));
        ct = reg_const(t->p, 256);
        CALL(ret = Crc8Base(ct->p, r->p, (uint32_t)d.n, (uint8_t)init, (uint8_t)x, ro, ri, fx));
    } else if (w == 16) {
        CALL(Crc16Base_tableCalculator((uint16_t)poly, (uint16_t *)t->p));
        ct = TYPED(reg_const(t->p, 512));
        CALL(ret = Crc16Base((uint16_t *)ct->p, r->p, (uint32_t)d.n, (uint16_t)init, (uint16_t)x, ro, ri, fx));
    } else {
        CALL(Crc32Base_tableCalculator(poly, (uint32_t *)t->p));
        ct = TYPED(reg_const(t->p, 1024));
        CALL(ret = Crc32Base((uint32_t *)ct->p, r->p, (uint32_t)d.n, init, x, ro, ri, fx));
    }
    ev("CBase"); ev_i("w", w); ev_w("poly", poly); ev_w("init", init); ev_w("xor", x);
    ev_b("ro", ro); ev_b("ri", ri); ev_b("fx", fx); ev_data(8, &d); ev_w("ret", ret); ev_end();
    reg_free(r); reg_free(t); reg_free(ct); free(d.p);
}

/* --------------------------------------------------------------------- ChaCha20 */
static void c_chacha(void) { /* key nonce ctr data inplace blk... : logs result bytes of the named blocks (none named: all) */
    Buf k = bytes(1), nn = bytes(2), d = bytes(4);
    uint32_t ctr = (uint32_t)num(3);
    int inplace = (int)num(5);
    Region *rk = reg_const(k.p, k.n), *rn = reg_const(nn.p, nn.n);
    Region *ri = inplace ? reg_data(d.p, d.n) : reg_const(d.p, d.n), *ro = inplace ? ri : reg_new(d.n);
    CALL(Chacha20_crypt(ri->p, (uint32_t)d.n, rk->p, rn->p, ctr, ro->p));
    ev("Cha"); ev_a("key", k.p, k.n); ev_a("nonce", nn.p, nn.n); ev_w("ctr", ctr); ev_data(4, &d); ev_i("len", (long)d.n); ev_b("inpl", inplace);
    fprintf(out, ",\"blk\":[");
    size_t nb = (d.n + 63) / 64;
    int some = cur->n > 6;
    size_t cnt = some ? (size_t)(cur->n - 6) : nb;
    for (size_t i = 0; i < cnt; ++i) {
        size_t b = some ? num(6 + (int)i) : i, l = d.n > b * 64 ? (d.n - b * 64 < 64 ? d.n - b * 64 : 64) : 0;
        fprintf(out, i ? ",{\"i\":%zu,\"o\":" : "{\"i\":%zu,\"o\":", b);
        arr(l ? ro->p + b * 64 : ro->p, l);
        fputc('}', out);
    }
    fputc(']', out);
    ev_end();
    reg_free(rk); reg_free(rn); reg_free(ri); if (!inplace) reg_free(ro);
    free(k.p); free(nn.p); free(d.p);
}
static void c_gchacha(void) { /* key nonce ctr a b n blk... : byte k of the message is a*k + b; logs the named blocks of the result */
    Buf k = bytes(1), nn = bytes(2);
    uint32_t ctr = (uint32_t)num(3);
    unsigned a = (unsigned)num(4), b = (unsigned)num(5);
    size_t n = num(6);
    const uint8_t *d = rows(a, b, n);
    Region *rk = reg_const(k.p, k.n), *rn = reg_const(nn.p, nn.n), *ro = reg_new(n);
    CALL(Chacha20_crypt(d, (uint32_t)n, rk->p, rn->p, ctr, ro->p));
    ev("ChaG"); ev_a("key", k.p, k.n); ev_a("nonce", nn.p, nn.n); ev_w("ctr", ctr); ev_i("a", a); ev_i("b", b); ev_ul("n", n);
    fprintf(out, ",\"blk\":[");
    for (int i = 7; i < cur->n; ++i) {
        size_t q = num(i), l = n > q * 64 ? (n - q * 64 < 64 ? n - q * 64 : 64) : 0;
        fprintf(out, i > 7 ? ",{\"i\":%zu,\"o\":" : "{\"i\":%zu,\"o\":", q);
        arr(ro->p + q * 64, l);
        fputc('}', out);
    }
    fputc(']', out);
    ev_end();
    reg_free(rk); reg_free(rn); reg_free(ro); rows_free(d, n); free(k.p); free(nn.p);
}
/* streams: a message processed in pieces.  hnew id key nonce ctr ; hpart id data inplace ; the driver advances the counter */
static struct {
    uint8_t key[32], nonce[12];
    uint32_t ctr, first;
    uint8_t *msg;
    size_t n;
} H[MAXID];
static void c_hnew(void) {
    int id = objid(1);
    Buf k = bytes(2), n = bytes(3);
    memcpy(H[id].key, k.p, 32);
    memcpy(H[id].nonce, n.p, 12);
    H[id].ctr = H[id].first = (uint32_t)num(4);
    H[id].n = 0;
    st = "OK";
    ev("HNew"); ev_i("id", id); ev_a("key", k.p, 32); ev_a("nonce", n.p, 12); ev_w("ctr", H[id].ctr); ev_end();
    free(k.p); free(n.p);
}
static void c_hpart(void) { /* id data inplace */
    int id = objid(1);
    Buf d = bytes(2);
    int inplace = (int)num(3);
    Region *rk = reg_const(H[id].key, 32), *rn = reg_const(H[id].nonce, 12);
    Region *ri = inplace ? reg_data(d.p, d.n) : reg_const(d.p, d.n), *ro = inplace ? ri : reg_new(d.n);
    CALL(Chacha20_crypt(ri->p, (uint32_t)d.n, rk->p, rn->p, H[id].ctr, ro->p));
    ev("HPart"); ev_i("id", id); ev_data(2, &d); ev_b("inpl", inplace); ev_a("o", ro->p, d.n); ev_end();
    H[id].ctr += (uint32_t)((d.n + 63) / 64);
    H[id].msg = realloc(H[id].msg, H[id].n + d.n + 1);
    memcpy(H[id].msg + H[id].n, d.p, d.n);
    H[id].n += d.n;
    reg_free(rk); reg_free(rn); reg_free(ri); if (!inplace) reg_free(ro);
    free(d.p);
}
static void c_hwhole(void) { /* id inplace : the message of the stream so far, in one call */
    int id = objid(1);
    int inplace = (int)num(2);
    size_t n = H[id].n;
    Region *rk = reg_const(H[id].key, 32), *rn = reg_const(H[id].nonce, 12);
    Region *ri = inplace ? reg_data(H[id].msg, n) : reg_const(H[id].msg, n), *ro = inplace ? ri : reg_new(n);
    CALL(Chacha20_crypt(ri->p, (uint32_t)n, rk->p, rn->p, H[id].first, ro->p));
    ev("HWhole"); ev_i("id", id); ev_b("inpl", inplace); ev_a("o", ro->p, n); ev_end();
    reg_free(rk); reg_free(rn); reg_free(ri); if (!inplace) reg_free(ro);
}
static void c_hback(void) { /* key nonce ctr data inplace : encrypt, then encrypt the result again */
    Buf k = bytes(1), nn = bytes(2), d = bytes(4);
    uint32_t ctr = (uint32_t)num(3);
    int inplace = (int)num(5);
    Region *rk = reg_const(k.p, k.n), *rn = reg_const(nn.p, nn.n);
    Region *ri = inplace ? reg_data(d.p, d.n) : reg_const(d.p, d.n), *ro = inplace ? ri : reg_new(d.n);
    CALL(Chacha20_crypt(ri->p, (uint32_t)d.n, rk->p, rn->p, ctr, ro->p));
    const char *bad = st;
    Region *ri2 = inplace ? ri : reg_const(ro->p, d.n), *ro2 = inplace ? ri : reg_new(d.n);
    CALL(Chacha20_crypt(ri2->p, (uint32_t)d.n, rk->p, rn->p, ctr, ro2->p));
    if (strcmp(bad, "OK")) st = bad;
    /* the restored message as runs of equality are of no interest to anyone but the reader: log it in full */
    ev("HBack"); ev_data(4, &d); ev_i("len", (long)d.n); ev_b("inpl", inplace); ev_a("o", ro2->p, d.n); ev_end();
    reg_free(rk); reg_free(rn); reg_free(ri);
    if (!inplace) { reg_free(ro); reg_free(ri2); reg_free(ro2); }
    free(k.p); free(nn.p); free(d.p);
}

/* ------------------------------------------------------------- classical ciphers */
static void c_caesar(void) { /* shift msg : encrypt, then decrypt in place */
    unsigned s = (unsigned)num(1);
    Buf m = bytes(2);
    Region *r = reg_data(m.p, m.n + 1);
    CALL(CaesarCipher_encrypt((char *)r->p, (uint8_t)s));
    const char *bad = st;
    uint8_t *e = malloc(m.n + 1);
    memcpy(e, r->p, m.n + 1);
    CALL(CaesarCipher_decrypt((char *)r->p, (uint8_t)s));
    if (strcmp(bad, "OK")) st = bad;
    ev("Caesar"); ev_i("s", s); ev_a("m", m.p, m.n); ev_a("e", e, m.n + 1); ev_a("d", r->p, m.n + 1); ev_end();
    free(e); reg_free(r); free(m.p);
}
static void c_vernam(void) { /* key keylen msg : encrypt, then decrypt in place */
    Buf k = bytes(1), m = bytes(3);
    int32_t kl = (int32_t)num(2);
    Region *rk = reg_const(k.p, k.n), *r = reg_data(m.p, m.n + 1);
    volatile bool r1 = false, r2 = false;
    CALL(r1 = VernamCipher_encrypt((char *)r->p, (char *)rk->p, kl));
    const char *bad = st;
    uint8_t *e = malloc(m.n + 1);
    memcpy(e, r->p, m.n + 1);
    CALL(r2 = VernamCipher_decrypt((char *)r->p, (char *)rk->p, kl));
    if (strcmp(bad, "OK")) st = bad;
    ev("Vernam"); ev_a("k", k.p, k.n); ev_i("kl", kl); ev_a("m", m.p, m.n); ev_b("r1", r1); ev_a("e", e, m.n + 1);
    ev_b("r2", r2); ev_a("d", r->p, m.n + 1); ev_end();
    free(e); reg_free(rk); reg_free(r); free(k.p); free(m.p);
}
/* a message of n letters B and a key given as keylen letters C, n different from keylen */
static void c_gvernam(void) { /* n keylen */
    size_t n = num(1), same = 0;
    int32_t kl = (int32_t)num(2);
    Region *k = reg_new((size_t)kl), *m = reg_new(n + 1);
    memset(k->p, 'C', (size_t)kl);
    memset(m->p, 'B', n);
    m->p[n] = 0;
    volatile bool r1 = false, r2 = false;
    CALL(r1 = VernamCipher_encrypt((char *)m->p, (char *)k->p, kl));
    const char *bad = st;
    CALL(r2 = VernamCipher_decrypt((char *)m->p, (char *)k->p, kl));
    if (strcmp(bad, "OK")) st = bad;
    while (same < n && m->p[same] == 'B') same++;
    ev("VernamG"); ev_ul("n", n); ev_i("kl", kl); ev_b("r1", r1); ev_b("r2", r2); ev_b("same", same == n && m->p[n] == 0); ev_end();
    reg_free(k); reg_free(m);
}

/* ------------------------------------------------------------------------- utils */
static void c_s2u(void) { /* chars */
    Buf s = bytes(1);
    Region *r = reg_const(s.p, s.n), *o = TYPED(reg_new(4));
    volatile bool ret = false;
    CALL(ret = Utils_stringToUint32((char *)r->p, (uint8_t)s.n, (uint32_t *)o->p));
    uint32_t v;
    memcpy(&v, o->p, 4);
    ev("S2U"); ev_a("s", s.p, s.n); ev_b("ret", ret); ev_w("v", v); ev_end();
    reg_free(r); reg_free(o); free(s.p);
}
static void c_pow(void) { /* e */
    unsigned e = (unsigned)num(1);
    Region *o = TYPED(reg_new(4));
    volatile bool ret = false;
    CALL(ret = Utils_quickUint32Pow10((uint8_t)e, (uint32_t *)o->p));
    uint32_t v;
    memcpy(&v, o->p, 4);
    ev("Pow10"); ev_i("e", e); ev_b("ret", ret); ev_w("v", v); ev_end();
    reg_free(o);
}
static void c_chr(void) { /* c */
    unsigned c = (unsigned)num(1);
    volatile bool u = false, l = false, a = false;
    CALL(u = Utils_isUpperChar((char)c); l = Utils_isLowerChar((char)c); a = Utils_isAlpha((char)c));
    ev("Chr"); ev_i("c", c); ev_b("u", u); ev_b("l", l); ev_b("a", a); ev_end();
}
static void c_ser(void) { /* bits order(be|le) value */
    int bits = (int)num(1);
    const char *o = arg(2);
    int be = o[0] == 'b';
    uint32_t v = (uint32_t)num(3);
    Region *r = reg_new((size_t)bits / 8);
    switch (bits) {
        case 8: CALL(Utils_serialize8(r->p, (uint8_t)v)); break;
        case 16: if (be) CALL(Utils_serialize16BE(r->p, (uint16_t)v)); else CALL(Utils_serialize16LE(r->p, (uint16_t)v)); break;
        case 24: if (be) CALL(Utils_serialize24BE(r->p, v)); else CALL(Utils_serialize24LE(r->p, v)); break;
        default: if (be) CALL(Utils_serialize32BE(r->p, v)); else CALL(Utils_serialize32LE(r->p, v)); break;
    }
    ev("Ser"); ev_i("w", bits); ev_b("be", be); ev_w("v", v); ev_a("b", r->p, (size_t)bits / 8); ev_end();
    reg_free(r);
}
static void c_des(void) { /* order bytes(1..4) */
    int be = arg(1)[0] == 'b';
    Buf b = bytes(2);
    Region *r = reg_const(b.p, b.n);
    volatile uint32_t v = 0;
    switch (b.n) {
        case 1: CALL(v = Utils_deserialize8(r->p)); break;
        case 2: if (be) CALL(v = Utils_deserialize16BE(r->p)); else CALL(v = Utils_deserialize16LE(r->p)); break;
        case 3: if (be) CALL(v = Utils_deserialize24BE(r->p)); else CALL(v = Utils_deserialize24LE(r->p)); break;
        default: if (be) CALL(v = Utils_deserialize32BE(r->p)); else CALL(v = Utils_deserialize32LE(r->p)); break;
    }
    ev("Des"); ev_b("be", be); ev_a("b", b.p, b.n); ev_w("v", v); ev_end();
    reg_free(r); free(b.p);
}
static void c_blob(void) { /* ser|des order bytes */
    int ser = arg(1)[0] == 's', be = arg(2)[0] == 'b';
    Buf b = bytes(3);
    Region *i = reg_const(b.p, b.n), *o = reg_new(b.n);
    uint32_t n = (uint32_t)b.n;
    if (ser) { if (be) CALL(Utils_serializeBlobBE(o->p, i->p, n)); else CALL(Utils_serializeBlobLE(o->p, i->p, n)); }
    else { if (be) CALL(Utils_deserializeBlobBE(i->p, o->p, n)); else CALL(Utils_deserializeBlobLE(i->p, o->p, n)); }
    ev("Blob"); ev_b("ser", ser); ev_b("be", be); ev_data(3, &b); ev_a("o", o->p, b.n); ev_end();
    reg_free(i); reg_free(o); free(b.p);
}
/* more bytes than can be logged: the source is one row of 256 bytes over and over, what was written is logged as
 * rows of 256 bytes [row, how often in sequence], at most 8 of them, and the bytes after the last whole row */
static void c_gblob(void) { /* ser|des order a b n : byte k of the source is a*k + b */
    int ser = arg(1)[0] == 's', be = arg(2)[0] == 'b';
    unsigned a = (unsigned)num(3), b = (unsigned)num(4);
    size_t n = num(5);
    const uint8_t *src = rows(a, b, n);
    Region *o = reg_new(n);
    if (ser) { if (be) CALL(Utils_serializeBlobBE(o->p, src, (uint32_t)n)); else CALL(Utils_serializeBlobLE(o->p, src, (uint32_t)n)); }
    else { if (be) CALL(Utils_deserializeBlobBE(src, o->p, (uint32_t)n)); else CALL(Utils_deserializeBlobLE(src, o->p, (uint32_t)n)); }
    ev("BlobG"); ev_b("ser", ser); ev_b("be", be); ev_i("a", a); ev_i("b", b); ev_ul("n", n);
    fprintf(out, ",\"rows\":[");
    size_t k = 0, rows = n / 256;
    for (int listed = 0; k < rows && listed < 8; ++listed) {
        size_t same = 1;
        while (k + same < rows && !memcmp(o->p + k * 256, o->p + (k + same) * 256, 256)) same++;
        fprintf(out, listed ? ",{\"row\":" : "{\"row\":");
        arr(o->p + k * 256, 256);
        ev_ul("n", same);
        fputc('}', out);
        k += same;
    }
    fputc(']', out);
    ev_b("all", k == rows);
    ev_a("tail", o->p + rows * 256, n % 256);
    ev_end();
    reg_free(o);
    rows_free(src, n);
}
static void c_swap(void) { /* bytes bytes(same size)|self : two elements, or one with itself */
    int self = !strcmp(arg(2), "self");
    Buf a = bytes(1), b = self ? bytes(1) : bytes(2);
    Region *x = reg_data(a.p, a.n), *y = self ? x : reg_data(b.p, b.n);
    CALL(Utils_swapElements(x->p, y->p, (uint32_t)a.n));
    ev("Swap"); ev_a("a", a.p, a.n); ev_a("b", b.p, b.n); ev_a("x", x->p, a.n); ev_a("y", y->p, b.n); ev_end();
    reg_free(x);
    if (!self) reg_free(y);
    free(a.p); free(b.p);
}
static void c_bit(void) { /* test|set|clear|toggle data n */
    const char *f = arg(1);
    uint32_t d = (uint32_t)num(2), v;
    unsigned n = (unsigned)num(3);
    volatile bool ret = false;
    if (f[0] == 't' && f[1] == 'e') {
        for (int init = 0; init < 2; ++init) { /* the output starts as false, then as true */
            Region *o = reg_new(1);
            o->p[0] = (uint8_t)init;
            CALL(ret = BitManipulation_bitSet(d, (uint8_t)n, (bool *)o->p));
            ev("BitTest"); ev_w("d", d); ev_i("n", n); ev_b("ret", ret); ev_i("was", init); ev_i("v", o->p[0]); ev_end();
            reg_free(o);
        }
        return;
    }
    Region *o = TYPED(reg_new(4));
    uint32_t was = d * 2654435761u + 12345u;
    memcpy(o->p, &was, 4);
    if (f[0] == 's') CALL(ret = BitManipulation_setBit(d, (uint8_t)n, (uint32_t *)o->p));
    else if (f[0] == 'c') CALL(ret = BitManipulation_clearBit(d, (uint8_t)n, (uint32_t *)o->p));
    else CALL(ret = BitManipulation_toggleBit(d, (uint8_t)n, (uint32_t *)o->p));
    memcpy(&v, o->p, 4);
    ev("Bit"); ev_s("f", f); ev_w("d", d); ev_i("n", n); ev_b("ret", ret); ev_w("was", was); ev_w("v", v); ev_end();
    reg_free(o);
}
static void c_refl(void) { /* data n */
    uint32_t d = (uint32_t)num(1);
    unsigned n = (unsigned)num(2);
    volatile uint32_t v = 0;
    CALL(v = BitManipulation_reflect(d, (uint8_t)n));
    ev("Reflect"); ev_w("d", d); ev_i("n", n); ev_w("v", v); ev_end();
}
static void c_rotl(void) { /* data n */
    uint32_t d = (uint32_t)num(1), n = (uint32_t)num(2);
    volatile uint32_t v = 0;
    CALL(v = BitManipulation_rotl32(d, n));
    ev("Rotl"); ev_w("d", d); ev_i("n", n); ev_w("v", v); ev_end();
}

/* ------------------------------------------------------------------- interpreter */
static void c_memlog(void) { memlog = (int)num(1); }
static void c_cmdlog(void) { cmdlog = (int)num(1); }
static void c_place(void) { /* R, L, or M and a number of bytes, one or two */
    place = arg(1)[0];
    misalign = place == 'M' ? (int)num(2) : 1;
    alignstep = place == 'M' && cur->n > 3 ? (int)num(3) : 0;
}
static void c_fill(void) { fill_byte = (unsigned)num(1); }
static void c_pre(void) { /* start stride max script [k] : preempt the next call, or the one after k more */
    pre.start = (long)num(1);
    pre.stride = (long)num(2);
    pre.max = (long)num(3);
    pre.script = script_id(arg(4));
    if (pre.script < 0) die("unknown script");
    pre.guided = 0;
    pre.wait = cur->n > 5 ? (int)num(5) : 0;
    pre.armed = 1;
}
static void c_prew(void) { /* max script [k] : preempt the next call (the one after k more) wherever it has just changed data of the library's own */
    pre.max = (long)num(1);
    pre.script = script_id(arg(2));
    if (pre.script < 0) die("unknown script");
    pre.wait = cur->n > 3 ? (int)num(3) : 0;
    pre.guided = pre.armed = lib_size() != 0;   /* no such data: nothing to be guided by */
}
static void c_note(void) { /* text : a marker in the trace (starts an independent part) */
    st = "OK";
    ev("Note"); ev_s("t", arg(1)); ev_end();
}

static const struct {
    const char *name;
    void (*f)(void);
} cmds[] = {
    {"qinit", c_qinit}, {"qenq", c_qenq}, {"qdeq", c_qdeq}, {"qfront", c_qfront}, {"qrear", c_qrear}, {"qstat", c_qstat}, {"qchurn", c_qchurn}, {"pchurn", c_pchurn},
    {"qfill", c_qfill}, {"qdrain", c_qdrain},
    {"pinit", c_pinit}, {"penq", c_penq}, {"pdeq", c_pdeq}, {"pstat", c_pstat}, {"pfill", c_pfill}, {"pdrain", c_pdrain},
    {"minit", c_minit}, {"mins", c_mins}, {"mget", c_mget}, {"mfill", c_mfill}, {"mlook", c_mlook},
    {"stable", c_stable}, {"sinit", c_sinit}, {"sadd", c_sadd}, {"sset", c_sset}, {"srun", c_srun}, {"prog", c_prog},
    {"progclear", c_progclear},
    {"jbuf", c_jbuf}, {"jstart", c_jstart}, {"jadd", c_jadd}, {"jend", c_jend}, {"jfind", c_jfind}, {"jdoc", c_jdoc}, {"jpad", c_jpad},
    {"b64e", c_b64e}, {"b64d", c_b64d}, {"b64rt", c_b64rt},
    {"sort", c_sort}, {"sortn", c_sortn}, {"sortg", c_sortg}, {"hook", c_hook},
    {"crc", c_crc}, {"gcrc", c_gcrc}, {"cnew", c_cnew}, {"cchunk", c_cchunk}, {"ctab", c_ctab}, {"cbase", c_cbase},
    {"chacha", c_chacha}, {"gchacha", c_gchacha}, {"hnew", c_hnew}, {"hpart", c_hpart}, {"hback", c_hback}, {"hwhole", c_hwhole},
    {"caesar", c_caesar}, {"vernam", c_vernam}, {"gvernam", c_gvernam},
    {"s2u", c_s2u}, {"pow", c_pow}, {"chr", c_chr}, {"ser", c_ser}, {"des", c_des}, {"blob", c_blob}, {"gblob", c_gblob}, {"swap", c_swap},
    {"bit", c_bit}, {"refl", c_refl}, {"rotl", c_rotl},
    {"place", c_place}, {"memlog", c_memlog}, {"cmdlog", c_cmdlog}, {"fill", c_fill}, {"pre", c_pre}, {"prew", c_prew}, {"note", c_note}, {"rep", c_rep},
};

static void exec_cmd(Cmd *c) {
    Cmd *keep = cur;
    int keep_tag = cur_tag;
    cur = c;
    int family = c->v[0][0] - 'a' + 'A';
    cur_tag = c->n > 1 && strchr("QPMSJ", family) ? family * 256 + atoi(c->v[1]) + 1 : 0;
    for (size_t i = 0; i < sizeof cmds / sizeof cmds[0]; ++i)
        if (!strcmp(cmds[i].name, c->v[0])) {
            cmds[i].f();
            cur = keep;
            cur_tag = keep_tag;
            return;
        }
    fprintf(stderr, "driver: %s: ", c->v[0]);
    die("unknown command");
}
/* rep n command...: the command n times over; an event is written when it differs from the one before */
static void c_rep(void) {
    long n = (long)num(1);
    Cmd c = {cur->v + 2, cur->n - 2};
    FILE *real = out;
    char *last = NULL;
    if (c.n < 1 || depth) die("bad rep");
    for (long i = 0; i < n; ++i) {
        char *text = NULL;
        size_t len = 0;
        out = open_memstream(&text, &len);
        exec_cmd(&c);
        fclose(out);
        out = real;
        if (!last || strcmp(last, text)) {
            fputs(text, out);
            free(last);
            last = text;
        } else free(text);
    }
    free(last);
}
static void run_script(int id) {
    Cmd *c = scripts[id].c;
    int n = scripts[id].n;
    depth++;
    for (int i = 0; i < n; ++i) exec_cmd(&c[i]);
    depth--;
}

static Cmd parse(char *line) {
    Cmd c = {NULL, 0};
    int cap = 8;
    c.v = malloc((size_t)cap * sizeof *c.v);
    for (char *t = strtok(line, " \n"); t; t = strtok(NULL, " \n")) {
        if (c.n == cap) c.v = realloc(c.v, (size_t)(cap *= 2) * sizeof *c.v);
        c.v[c.n++] = strdup(t);
    }
    return c;
}
static void cmd_free(Cmd *c) {
    for (int i = 0; i < c->n; ++i) free(c->v[i]);
    free(c->v);
}

int main(void) {
    out = stdout;
    if (getenv("HANG_S")) hang_s = atoi(getenv("HANG_S"));
    setvbuf(out, NULL, _IOFBF, 1 << 20);
    static uint8_t alt[1 << 16];
    stack_t ss = {.ss_sp = alt, .ss_flags = 0, .ss_size = sizeof alt};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM};
    for (unsigned i = 0; i < sizeof sigs / sizeof sigs[0]; ++i) sigaction(sigs[i], &sa, NULL);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, NULL);

    char *line = NULL;
    size_t cap = 0;
    Script *def = NULL;
    while (getline(&line, &cap, stdin) > 0) {
        if (line[0] == '#' || line[0] == '\n') continue;
        Cmd c = parse(line);
        if (c.n == 0) { cmd_free(&c); continue; }
        if (!strcmp(c.v[0], "def")) {
            int j = script_id(c.v[1]);
            if (j < 0) {
                if (nscripts == capscripts) scripts = realloc(scripts, (size_t)(capscripts = capscripts * 2 + 64) * sizeof *scripts);
                j = nscripts++;
                memset(&scripts[j], 0, sizeof scripts[j]);
                snprintf(scripts[j].name, sizeof scripts[j].name, "%s", c.v[1]);
            }
            def = &scripts[j];
            for (int i = 0; i < def->n; ++i) cmd_free(&def->c[i]);
            def->n = 0;
            cmd_free(&c);
        } else if (!strcmp(c.v[0], "end")) {
            def = NULL;
            cmd_free(&c);
        } else if (def) {
            if (def->n == def->cap) def->c = realloc(def->c, (size_t)(def->cap = def->cap * 2 + 8) * sizeof *def->c);
            def->c[def->n++] = c;
        } else {
            exec_cmd(&c);
            cmd_free(&c);
        }
    }
    fflush(out);
    fprintf(stderr, "events=%ld steps=%ld preemptions=%ld\n", events, pre_steps, pre_hits);
    return 0;
}
