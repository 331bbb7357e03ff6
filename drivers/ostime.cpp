#include "kit.h"
#include <time.h>
#include <ce/ce.h>
using namespace kit;
static bool fake = true, fake_ok;
static long fsec, fnsec;
static Json clocks, sleeps;
extern "C" int __real_clock_gettime(clockid_t, timespec*);
extern "C" int __wrap_clock_gettime(clockid_t c, timespec* t)
{
    clocks.i(c);
    if (!fake) return __real_clock_gettime(c, t);
    if (!fake_ok) { t->tv_sec = 12345; t->tv_nsec = 678; return -1; }
    t->tv_sec = fsec; t->tv_nsec = fnsec;
    return 0;
}
extern "C" int __real_nanosleep(timespec const*, timespec*);
extern "C" int __wrap_nanosleep(timespec const* q, timespec* r)
{
    Json p; p.i64(q->tv_sec).i64(q->tv_nsec); sleeps.arr(p);
    if (!fake) return __real_nanosleep(q, r);
    if (r) { r->tv_sec = 0; r->tv_nsec = 0; }
    return 0;
}
extern "C" int __wrap_clock_nanosleep(clockid_t c, int flags, timespec const* q, timespec* r)
{
    Json p; p.i64(flags ? -1 : q->tv_sec).i64(q->tv_nsec); sleeps.arr(p);
    if (!fake) return __real_nanosleep(q, r) ? 4 : 0;
    return 0;
}
struct S : Session
{
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        clocks = Json{}; sleeps = Json{};
        if (t[0] == "stamp")
        {
            fake = true; fake_ok = t[1] == "1"; fsec = I(t[2]); fnsec = I(t[3]);
            uint64_t r = ce::os::monotonic_timestamp();
            j.u64(ce::os::monotonic_frequency()).b(fake_ok).i64(fsec).i64(fnsec).u64(r).arr(clocks);
        }
        else if (t[0] == "sleep") { fake = true; ce::os::sleep_ns(U(t[1])); j.u64(U(t[1])).arr(sleeps); }
        else if (t[0] == "real") { fake = false; j.u64(ce::os::monotonic_timestamp()); }
        else if (t[0] == "nap")
        {
            fake = false;
            uint64_t a = ce::os::monotonic_timestamp();
            ce::os::sleep_ns(U(t[1]));
            uint64_t b = ce::os::monotonic_timestamp();
            // RAW and MONOTONIC clocks may run at rates up to 500ppm apart
            j.u64(U(t[1]) - U(t[1]) / 1000).u64(a).u64(b).u64(ce::os::monotonic_frequency());
        }
        else bad(t[0]);
        ev(j);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
