#include "kit.h"
#include <ce/clock.h>
using namespace kit;
static uint64_t now_ts, now_freq = 1;
static int stamps;
namespace ce { namespace os {
    uint64_t monotonic_timestamp() { return now_ts + 1000003u * uint64_t(stamps++); } // time moves on between two readings
    uint64_t monotonic_frequency() { return now_freq; }
    void debug_out(char const[]) {}
    void sleep_ns(uint64_t) {}
} }
template<uint64_t N, uint64_t D> struct S : Session
{
    ce::clock<N, D> c;
    S() { memset((void*)&c, 0xa5, sizeof c); }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "reset") { now_freq = U(t[1]); now_ts = U(t[2]); stamps = 0; c.reset(); j.u64(now_freq).u64(now_ts).u64(c.tick); now_freq ^= 0x55; }
        else
        {
            now_ts = U(t[1]);
            stamps = 0;
            uint64_t r = t[0] == "elapsed" ? c.elapsed() : c.current();
            j.u64(now_ts).u64(r).u64(c.tick);
        }
        j.u64(N).u64(D);
        ev(j);
    }
};
Session* make(toks const& p)
{
    uint64_t n = U(p[0]), d = U(p[1]);
#define R(N, D) if (n == N && d == D) return new S<N, D>;
    R(1, 1) R(60, 1) R(1000, 1) R(60000, 1001) R(1, 60) R(3, 7) R(1000000, 1) R(1000000000, 1) R(30, 1) R(65536, 3) R(999999937, 1000003)
    bad(p[0]);
    return nullptr;
}
int main() { return run(make); }
