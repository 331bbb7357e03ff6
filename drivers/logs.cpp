#define KIT_NO_ERROR_HOOK
#define KIT_NO_LOG_HOOK
#include "kit.h"
#include <signal.h>
static bool hook_error(int level, int argc, char const* argv[][2]);
static void hook_log(int level, int argc, char const* argv[][2]);
#define CE_USER_ERROR_HOOK(LEVEL, ARGC, ...) ::hook_error(LEVEL, ARGC, __VA_ARGS__)
#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) ::hook_log(LEVEL, ARGC, __VA_ARGS__)
#include <ce/ce.h>
using namespace kit;

static Json reports;
static volatile int breaks;
static bool answer;
static int evals[16];
static int conds;
static int yield;
static void on_trap(int) { breaks = breaks + 1; }
static void report(char const* what, int level, int argc, char const* argv[][2])
{
    Json p;
    for (int k = 0; k < argc; ++k)
    {
        Json a;
        for (int c = 0; c < 2; ++c) { char const* t = argv[k][c]; if (t) a.bytes(t, strlen(t)); else a.q("null"); }
        p.arr(a);
    }
    Json r; r.q(what).i(level).arr(p);
    reports.arr(r);
}
static void hook_log(int level, int argc, char const* argv[][2]) { report("log", level, argc, argv); }
static bool hook_error(int level, int argc, char const* argv[][2]) { report("error", level, argc, argv); return answer; }

// the generated statements use these: argument k was evaluated
template<class T> T A(int k, T v) { ++evals[k]; return v; }
inline bool C(bool b) { ++conds; return b; }
template<int X, int Y> int tmpl(int k) { ++evals[k]; return X * Y; }
struct Idx { int operator[](int k) const { ++evals[k]; return k * 3; } };
struct Num { int operator[](int v) const { return v; } };
struct S3 { char const* t; int n; };
static int \u00e9 = 41;

static void begin() { reports = Json{}; breaks = 0; memset(evals, 0, sizeof evals); conds = 0; yield = -1; }
static Json evs(int n) { Json e; for (int k = 0; k < n; ++k) e.i(evals[k]); return e; }
static Json bs(char const* t) { Json j; j.bytes(t, strlen(t)); return Json{ j.s.size() > 2 ? j.s.substr(1, j.s.size() - 2) : str() }; }
static void log_done(char const* op, int level, char const* level_text, char const* args, char const* parts, int n)
{
    Json j; j.q(op).i(level).arr(bs(level_text)).arr(bs(args)).raw(parts).arr(evs(n)).arr(reports).i(breaks); ev(j);
}
static void check_done(char const* op, bool cond, char const* cond_text, char const* args, char const* parts, int n, char const* kind, char const* fl)
{
    Json j; j.q(op).b(cond).arr(bs(cond_text)).arr(bs(args)).raw(parts).arr(evs(n)).arr(reports).i(breaks).arr(bs(kind)).arr(bs(fl)).i(conds).b(answer).i(yield); ev(j);
}

static str printed;
extern "C" ssize_t __real_write(int, void const*, size_t);
static bool capture;
extern "C" ssize_t __wrap_write(int fd, void const* p, size_t n)
{
    if (!capture) return __real_write(fd, p, n);
    printed.append((char const*)p, n);
    return ssize_t(n);
}

#ifdef NO_NAMES
template<size_t N> void names(str const& t, int) { bad(t); }
#else
template<size_t N, size_t COUNT> void names(str const& text)
{
    auto* n = new ce::names<N, COUNT>(text.c_str());
    Json l;
    for (size_t k = 0; k < COUNT; ++k)
    {
        char const* p = n->data[k];
        if (p < n->text || p >= n->text + N) { l.q("outside"); continue; }
        l.bytes(p, strnlen(p, n->text + N - p));
    }
    delete n;
    Json j; j.q("names").i(COUNT).bytes(text.data(), text.size()).arr(l); ev(j);
}
template<size_t N> void names(str const& t, int count)
{
    switch (count) { case 1: names<N, 1>(t); break; case 2: names<N, 2>(t); break; case 3: names<N, 3>(t); break; case 4: names<N, 4>(t); break; case 5: names<N, 5>(t); break; default: names<N, 7>(t); }
}
#endif
static void generated(int);
struct S : Session
{
    void op(toks const& t) override
    {
        if (t[0] == "gen") generated(int(I(t[1])));
        else if (t[0] == "names")
        {
            str b = unhex(t[2]);
            int c = int(I(t[1]));
            switch (b.size() + 1)
            {
#define R(N) case N: names<N>(b, c); break;
                R(1) R(2) R(4) R(8) R(12) R(16) R(24) R(40) R(64) R(128) R(300) R(700)
                default: bad(t[2]);
            }
        }
        else if (t[0] == "oslog" || t[0] == "oserror")
        {
            int level = int(I(t[1]));
            std::vector<str> v;
            for (size_t k = 2; k < t.size(); ++k) v.push_back(unhex(t[k]));
            size_t n = v.size() / 2;
            auto argv = new char const*[n + 1][2];
            Json p;
            for (size_t k = 0; k < n; ++k)
            {
                argv[k][0] = v[2 * k].c_str(); argv[k][1] = v[2 * k + 1].c_str();
                Json a; a.bytes(v[2 * k].data(), v[2 * k].size()).bytes(v[2 * k + 1].data(), v[2 * k + 1].size()); p.arr(a);
            }
            argv[n][0] = argv[n][1] = nullptr;
            printed.clear();
            capture = true;
            bool r = false;
            if (t[0] == "oslog") ce::os::log(level, int(n), argv); else r = ce::os::error(level, int(n), argv);
            capture = false;
            delete[] argv;
            Json j; j.q(t[0]).i(level).arr(p).bytes(printed.data(), printed.size());
            if (t[0] == "oserror") j.b(r);
            ev(j);
        }
        else bad(t[0]);
    }
};
Session* make(toks const&) { return new S; }
int main()
{
    struct sigaction sa{}; sa.sa_handler = on_trap; sigaction(SIGTRAP, &sa, nullptr);
    return run(make);
}
#ifdef GEN
#include "logs_gen.h"
#else
static void generated(int) {}
#endif
