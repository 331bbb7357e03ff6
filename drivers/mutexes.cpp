// M01, M02: real threads stepped one call at a time over real locks; a call that does not return is recognised by its
// thread going to sleep.  With -DKIT_WIN32 the Windows implementation over a stand-in for SRW locks.
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <atomic>
#include "kit.h"
#include "ce/ce.h"
#ifdef KIT_WIN32
#undef CE_API_WIN32
#define CE_API_WIN32 1
#endif
#include "ce/mutex.h"
#ifdef KIT_WIN32
#include "mutex_win32.cpp"
#endif
#include <sys/syscall.h>
#include <sched.h>
#include <time.h>
using namespace kit;

static constexpr int MAXT = 4;
struct Worker
{
    std::thread th;
    std::atomic<int> tid{ 0 }, cmd{ 0 }, done{ 0 };   // cmd counts commands given, done counts commands finished
    int what = 0, lock = 0;
    bool result = false;
};
static Worker W[MAXT + 1];
static struct Room { char before[64]; alignas(64) char q[128]; char after[64]; } room[4];
static bool shared;

template<class M> bool call(int what, M& m)
{
    switch (what)
    {
    case 1: ce::acquire_mutex(m); return true;
    case 2: return ce::try_acquire_mutex(m);
    case 3: ce::release_mutex(m); return true;
    }
    if constexpr (std::is_same<M, ce::thread_shared_mutex>::value)
        switch (what)
        {
        case 4: ce::acquire_mutex_shared(m); return true;
        case 5: return ce::try_acquire_mutex_shared(m);
        case 6: ce::release_mutex_shared(m); return true;
        }
    _exit(3);
}
static bool call_on(int what, int l)
{
    if (shared) return call(what, *(ce::thread_shared_mutex*)room[l].q);
    return call(what, *(ce::thread_mutex*)room[l].q);
}
static void run_worker(int k)
{
    Worker& w = W[k];
    w.tid = (int)syscall(SYS_gettid);
    for (int n = 0;;)
    {
        int spin = 0;
        while (w.cmd.load() == n) if (++spin > 2000) sched_yield();
        ++n;
        if (w.what == 0) return;
        w.result = call_on(w.what, w.lock);
        w.done.store(n);
    }
}
static char state_of(int tid)
{
    char p[64], b[512];
    snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
    FILE* f = fopen(p, "r");
    if (!f) return '?';
    size_t n = fread(b, 1, sizeof b - 1, f);
    fclose(f);
    b[n] = 0;
    char* r = strrchr(b, ')');
    return r && r[1] ? r[2] : '?';
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// every given command has finished or its thread sleeps
static void rest(int nt)
{
    double t0 = now();
    for (int calm = 0; calm < 3;)
    {
        bool quiet = true, pending = false;
        for (int k = 1; k <= nt; ++k)
            if (W[k].done != W[k].cmd)
            {
                pending = true;
                if (state_of(W[k].tid) != 'S' && W[k].done != W[k].cmd) quiet = false;
            }
        if (!pending) return;
        if (now() - t0 > 5) return;      // spinning for ever counts as blocked
        if (quiet) { ++calm; timespec d{ 0, 20000 }; nanosleep(&d, nullptr); }
        else { calm = 0; sched_yield(); }
    }
}

struct S : Session
{
    int nl, nt = 3;
    int hold[MAXT + 1][4] = {};       // 1 exclusive, 2 shared
    bool waiting[MAXT + 1] = {};
    void make(int l)
    {
        memset(&room[l], 0x5a, sizeof room[l]);
        if (shared) ce::construct_mutex(*(ce::thread_shared_mutex*)room[l].q); else ce::construct_mutex(*(ce::thread_mutex*)room[l].q);
    }
    void drop(int l)
    {
        if (shared) ce::destroy_mutex(*(ce::thread_shared_mutex*)room[l].q); else ce::destroy_mutex(*(ce::thread_mutex*)room[l].q);
        size_t n = shared ? sizeof(ce::thread_shared_mutex) : sizeof(ce::thread_mutex);
        bool clean = true;
        for (char c : room[l].before) clean &= c == 0x5a;
        for (char c : room[l].after) clean &= c == 0x5a;
        for (size_t k = n; k < sizeof room[l].q; ++k) clean &= room[l].q[k] == 0x5a;
        if (!clean) { fprintf(stderr, "wrote beside the mutex\n"); _exit(77); }
    }
    S(bool sh, int n) : nl(n)
    {
        shared = sh;
        for (int l = 1; l <= nl; ++l) make(l);
    }
    void start(int t, int what, int l)
    {
        if (!W[t].tid) { W[t].th = std::thread(run_worker, t); while (!W[t].tid) sched_yield(); }
        W[t].what = what;
        W[t].lock = l;
        W[t].cmd.store(W[t].cmd + 1);
    }
    void step(char const* name, int what, int t, int l)
    {
        int h = hold[t][l];
        if (waiting[t]) return;
        if (what == 3 ? h != 1 : what == 6 ? h != 2 : h != 0) return;
        // blocking calls in lock order only: no cyclic waits
        if (what == 1 || what == 4) for (int k = l + 1; k <= nl; ++k) if (hold[t][k]) return;
        start(t, what, l);
        rest(nt);
        Json j, g, b;
        bool in = W[t].done == W[t].cmd;
        j.q(name).i(t).i(l).b(what == 2 || what == 5 ? in && W[t].result : in);
        if (what == 3 || what == 6 || what == 2 || what == 5)
            if (!in) { fprintf(stderr, "%s blocked\n", name); _exit(79); }
        if (in) hold[t][l] = what == 3 || what == 6 ? 0 : !W[t].result ? 0 : what < 3 ? 1 : 2;
        else waiting[t] = true;
        for (int k = 1; k <= nt; ++k)
            if (k != t && waiting[k])
            {
                if (W[k].done == W[k].cmd) { waiting[k] = false; hold[k][W[k].lock] = W[k].what == 1 ? 1 : 2; g.i(k); }
            }
        for (int k = 1; k <= nt; ++k) if (waiting[k]) b.i(k);
        j.arr(g).arr(b);
        ev(j);
    }
    void op(toks const& t) override
    {
        str const& o = t[0];
        if (o == "renew")
        {
            int l = int(I(t[1]));
            for (int k = 1; k <= nt; ++k) if (hold[k][l] || (waiting[k] && W[k].lock == l)) return;
            drop(l);
            make(l);
            ev(Json{}.q(o).i(l));
            return;
        }
        if (o == "stress") return stress(int(I(t[1])), unsigned(I(t[2])));
        int T = int(I(t[1])), l = int(I(t[2]));
        if (o == "acq") return step("acq", 1, T, l);
        if (o == "try") return step("try", 2, T, l);
        if (o == "rel") { if (hold[T][l] == 2) step("rels", 6, T, l); else step("rel", 3, T, l); return; }
        if (o == "acqs") return step("acqs", 4, T, l);
        if (o == "trys") return step("trys", 5, T, l);
        if (o == "rels") { if (hold[T][l] == 1) step("rel", 3, T, l); else step("rels", 6, T, l); return; }
        bad(o);
    }
    // free running: nobody may hold anything
    void stress(int n, unsigned seed)
    {
        for (int k = 1; k <= nt; ++k) { if (waiting[k]) return; for (int l = 1; l <= nl; ++l) if (hold[k][l]) return; }
        static long count[4];
        static std::atomic<int> inx[4], ins[4];
        std::atomic<bool> fine{ true };
        std::atomic<long> made{ 0 };
        for (int l = 1; l <= nl; ++l) count[l] = 0;
        std::vector<std::thread> v;
        for (int k = 0; k < 4; ++k)
            v.emplace_back([&, k] {
                unsigned r = seed + unsigned(k) * 7919u;
                long mine = 0;
                for (int j = 0; j < n; ++j)
                {
                    r = r * 1664525u + 1013904223u;
                    int l = 1 + int(r >> 16) % nl, what = 1 + int(r >> 20) % 2 + (shared && (r >> 24) % 3 ? 3 : 0);
                    if (!call_on(what, l)) continue;
                    if (what < 3)
                    {
                        if (inx[l].fetch_add(1) != 0 || ins[l].load() != 0) fine = false;
                        long c = count[l];
                        if ((r >> 28) == 3) sched_yield();
                        count[l] = c + 1;
                        ++mine;
                        inx[l].fetch_sub(1);
                        call_on(3, l);
                    }
                    else
                    {
                        ins[l].fetch_add(1);
                        if (inx[l].load() != 0) fine = false;
                        ins[l].fetch_sub(1);
                        call_on(6, l);
                    }
                }
                made += mine;
            });
        for (auto& t : v) t.join();
        long total = 0;
        for (int l = 1; l <= nl; ++l) total += count[l];
        ev(Json{}.q("stress").b(fine).i(made).i(total));
    }
    void end() override
    {
        // let everybody go: release until nothing is held or waited for
        for (bool more = true; more;)
        {
            more = false;
            for (int t = 1; t <= nt; ++t)
                for (int l = 1; l <= nl; ++l)
                    if (!waiting[t] && hold[t][l]) { more = true; if (hold[t][l] == 1) step("rel", 3, t, l); else step("rels", 6, t, l); }
        }
        for (int t = 1; t <= nt; ++t)
        {
            if (!waiting[t]) continue;
            // a deadlock among the script's own threads, or a lost waiter: the specification has judged it already
            printf("{\"p\":[%s],\"ev\":[%s]}\n", params_json.c_str(), events.s.c_str());
            fflush(stdout);
            _exit(4);
        }
        for (int l = 1; l <= nl; ++l) drop(l);
    }
};
Session* make(toks const& p) { return new S(p[0] == "shared", int(I(p[1]))); }
int main()
{
    int r = run(make);
    for (int k = 1; k <= MAXT; ++k) if (W[k].tid) { W[k].what = 0; W[k].cmd.store(W[k].cmd + 1); W[k].th.join(); }
    return r;
}
