// Counts the work of a run: edges of the control flow passed, and bytes moved or compared by the C library's memory functions.  The sum
// doesn't depend on the machine or on what else it is doing.  Written to the file named by QB_WORK when the process ends.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <sys/resource.h>

static uint64_t edges, moved, limit = ~uint64_t(0);
static int done;

#define PLAIN __attribute__((no_sanitize("coverage")))

PLAIN static void report()
{
    if (done++) return;
    char const* f = std::getenv("QB_WORK");
    if (!f) return;
    struct rusage u;
    getrusage(RUSAGE_SELF, &u);
    std::FILE* o = std::fopen(f, "w");
    if (!o) return;
    std::fprintf(o, "%llu %llu %ld\n", (unsigned long long)edges, (unsigned long long)moved, u.ru_maxrss);
    std::fclose(o);
}

// Ends the run, with a status of its own, when it is known to be far more work than allowed.
PLAIN static void over()
{
    report();
    _Exit(77);
}

struct start
{
    PLAIN start()
    {
        char const* l = std::getenv("QB_WORK_LIMIT");
        if (l) limit = std::strtoull(l, 0, 10);
        std::atexit(report);
    }
} start_;

extern "C" {
PLAIN void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
    if (++edges > limit) over();
}
PLAIN void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}

PLAIN void* memcpy(void* d, void const* s, size_t n)
{
    moved += n;
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
PLAIN void* memmove(void* d, void const* s, size_t n)
{
    moved += n;
    if ((char*)d <= (char const*)s || (char*)d >= (char const*)s + n) {
        void* r = d;
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        return r;
    }
    char* p = (char*)d + n;
    char const* q = (char const*)s + n;
    while (n >= 8) {
        p -= 8, q -= 8, n -= 8;
        uint64_t x = *(uint64_t const volatile*)q;
        *(uint64_t volatile*)p = x;
    }
    while (n--) *(char volatile*)--p = *(char const volatile*)--q;
    return d;
}
PLAIN int memcmp(void const* a, void const* b, size_t n)
{
    unsigned char const volatile *p = (unsigned char const*)a, *q = (unsigned char const*)b;
    for (size_t i = 0; i != n; ++i)
        if (p[i] != q[i]) {
            moved += i;
            return p[i] < q[i] ? -1 : 1;
        }
    moved += n;
    return 0;
}
PLAIN void* memchr(void const* a, int c, size_t n)
{
    unsigned char const volatile* p = (unsigned char const*)a;
    for (size_t i = 0; i != n; ++i)
        if (p[i] == (unsigned char)c) {
            moved += i;
            return (void*)(p + i);
        }
    moved += n;
    return 0;
}
}
