// X07: what the library calls from where. Sessions of the other checks, with the monitors of core.cpp watching every
// call of the driver, every callback and every change of the application's variables.
#include "master_eng.hpp"
namespace {
struct Ref { const char *name, *id, *mode; };
const Ref X07[] = {
    {"m_soup", "M04", "soup"}, {"m_plans", "M04", "plans"}, {"m_queue", "M03", "session"}, {"m_refused", "M02", "session"}, {"m_silence", "M09", "silence"}, {"m_line", "M13", "session"}, {"m_init", "M14", "session"}, {"m_streaks", "M04", "streaks"},
    {"s_valid", "S02", "session"}, {"s_any", "S04", "session"}, {"s_disturbed", "S06", "session"}, {"s_overlap", "S09", "overlap"}, {"s_line", "S09", "session"}, {"s_data", "S08", "session"}, {"s_init", "S10", "session"}, {"s_streaks", "S06", "streaks"},
    {"both", "X03", "calls"},
    {"i_slave", "X04", "slave_multi"}, {"i_master", "X04", "master_multi"}, {"i_sgarbage", "X04", "slave_garbage"}, {"i_mgarbage", "X04", "master_garbage"}};
template <int I> void fn() {
    static const Mode *m = find_mode(X07[I].id, X07[I].mode);
    struct Watch { Watch() { g_watch = true; g_where = W_OUT; } ~Watch() { g_watch = false; } } w;
    m->fn();
}
template <int I> void fm() {
    static const Mode *m = find_mode(X07[I].id, X07[I].mode);
    if (!hooks_compiled_in()) return;
    struct Meter { Meter() { g_meter = true; g_where = W_OUT; } ~Meter() { g_meter = false; } } w;
    m->fn();
}
#define YM(i, q, t, c) {X07[i].name, fm<i>, q, t, c}
#define XM(i, q, t, c) {X07[i].name, fn<i>, q, t, c}
RegProp P07("X07", "A case is a session of another check (line garbage, planned outcomes, full queues, refused requests, timeouts, initialisations, requests of all kinds, disturbances, registrations, both roles together; modes i_*: with driver events and ticks interrupting the polls and request functions, on the instrumented builds). Monitors record which library function is running and judge every driver call, callback and change of an application variable by it; nontrivial and distinct as defined there.",
    {XM(0, 1500, 60000, 100), XM(1, 1500, 60000, 100), XM(2, 1000, 60000, 100), XM(3, 1000, 60000, 100), XM(4, 400, 15000, 50), XM(5, 1500, 60000, 100), XM(6, 1500, 60000, 100), XM(7, 200, 10000, 20),
     XM(8, 3000, 150000, 200), XM(9, 3000, 150000, 200), XM(10, 3000, 150000, 200), XM(11, 1500, 60000, 200), XM(12, 3000, 100000, 200), XM(13, 3000, 100000, 200), XM(14, 3000, 100000, 200), XM(15, 200, 10000, 20),
     XM(16, 1000, 40000, 100), XM(17, 300, 6000, 20), XM(18, 300, 6000, 20), XM(19, 3000, 100000, 200), XM(20, 2000, 80000, 100)});
RegProp P09("X09", "A case is a session as in X07. On an unoptimised build with a hook at every branch and memory access the depth of the stack below the call of the library function is measured at each of them (application callbacks, driver functions and interrupting events begin anew), and the C library's functions for allocating memory are replaced by monitors that report their use; nontrivial and distinct as defined for the sessions.",
    {YM(0, 1500, 60000, 100), YM(1, 1500, 60000, 100), YM(2, 1000, 60000, 100), YM(3, 1000, 60000, 100), YM(4, 400, 15000, 50), YM(5, 1500, 60000, 100), YM(6, 1500, 60000, 100), YM(7, 200, 10000, 20),
     YM(8, 3000, 150000, 200), YM(9, 3000, 150000, 200), YM(10, 3000, 150000, 200), YM(11, 1500, 60000, 200), YM(12, 3000, 100000, 200), YM(13, 3000, 100000, 200), YM(14, 3000, 100000, 200), YM(15, 200, 10000, 20),
     YM(16, 1000, 40000, 100), YM(17, 300, 6000, 20), YM(18, 300, 6000, 20), YM(19, 3000, 100000, 200), YM(20, 2000, 80000, 100)});
}
// what the library's calls of these functions lead to in the 'mem' build
static void no_heap(const char *f) { fail("allocation", "the library called %s", f); }
extern "C" {
void *vh_sys_malloc(size_t n) { no_heap("malloc"); return malloc(n); }
void *vh_sys_calloc(size_t n, size_t m) { no_heap("calloc"); return calloc(n, m); }
void *vh_sys_realloc(void *p, size_t n) { no_heap("realloc"); return realloc(p, n); }
void *vh_sys_reallocarray(void *p, size_t n, size_t m) { no_heap("reallocarray"); return realloc(p, n * m); }
void vh_sys_free(void *p) { no_heap("free"); free(p); }
void *vh_sys_aligned_alloc(size_t a, size_t n) { no_heap("aligned_alloc"); return aligned_alloc(a, n); }
int vh_sys_posix_memalign(void **p, size_t a, size_t n) { no_heap("posix_memalign"); return posix_memalign(p, a, n); }
char *vh_sys_strdup(const char *s) { no_heap("strdup"); return strdup(s); }
char *vh_sys_strndup(const char *s, size_t n) { no_heap("strndup"); return strndup(s, n); }
void *vh_sys_sbrk(long n) { no_heap("sbrk"); return (void *)-1; }
void *vh_sys_mmap(void *, size_t n, int, int, int, long) { no_heap("mmap"); return malloc(n); }
}
