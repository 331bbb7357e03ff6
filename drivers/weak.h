// weak.h - spec/Mem.tla as a C++ machine under std::atomic: every primitive is a scheduling point of a cooperative
// scheduler, every read chooses among the messages the memory model lets the thread see.  Include before any header
// that uses std::atomic; it renames the template after the standard headers have been read.
#pragma once
#include <atomic>
#include <type_traits>
#include <functional>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <random>
#include <ucontext.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>

namespace wm
{
    constexpr int MAXL = 6, MAXT = 4;
    struct View { unsigned char t[MAXL]; };
    inline View join(View a, View const& b) { for (int k = 0; k < MAXL; ++k) if (b.t[k] > a.t[k]) a.t[k] = b.t[k]; return a; }
    struct Msg { unsigned char b[16]; View v; };
    struct Loc { unsigned char* p; int size; bool plain; std::vector<Msg> h; unsigned char shown[16]; };
    struct Thr { View cur, acq, rel; ucontext_t uc; bool done; int weak; };

    inline std::vector<Loc> L;
    inline Thr T[MAXT];
    inline View SC;
    inline int nt = 0, self = -1;
    inline ucontext_t sched;
    enum Raw { LATEST, STALE, TORN };
    inline Raw raw_mode = LATEST;
    inline int steps = 0, step_limit = 400;
    inline bool cut = false, foreign = false;

    // choices: a depth first walk over all of them, or random ones
    struct Choice { int k, n; };
    inline std::vector<Choice> path;
    inline size_t at = 0;
    inline bool random_walk = false;
    inline std::mt19937 rng;
    inline int choose(int n)
    {
        if (n <= 1) return 0;
        if (random_walk) return int(rng() % n);
        if (at < path.size()) return path[at++].k;
        path.push_back({ 0, n });
        ++at;
        return 0;
    }
    inline bool next_path()
    {
        while (!path.empty()) { if (++path.back().k < path.back().n) return true; path.pop_back(); }
        return false;
    }

    // log of primitives, for validation against Mem.tla
    inline bool logging = false;
    inline std::string logtext;

    inline int last(int l) { return int(L[l].h.size()) - 1; }
    // what a plain access to an atomic object finds in memory
    inline void show()
    {
        for (int l = 0; l < int(L.size()); ++l)
        {
            Loc& o = L[l];
            if (o.plain) continue;
            unsigned char const* now = o.h[last(l)].b;
            unsigned char const* old = self >= 0 ? o.h[T[self].cur.t[l]].b : now;
            for (int k = 0; k < o.size; ++k)
                o.shown[k] = raw_mode == LATEST ? now[k] : raw_mode == STALE ? old[k] : k < o.size / 2 ? now[k] : old[k];
            memcpy(o.p, o.shown, o.size);
        }
    }
    // a plain write to an atomic object: a message that synchronizes with nothing
    inline void absorb()
    {
        for (int l = 0; l < int(L.size()); ++l)
        {
            Loc& o = L[l];
            if (o.plain || !memcmp(o.p, o.shown, o.size)) continue;
            Msg m{};
            memcpy(m.b, o.p, o.size);
            o.h.push_back(m);
            if (self >= 0) T[self].cur.t[l] = (unsigned char)last(l);
            o.h.back().v.t[l] = (unsigned char)last(l);
            foreign = true;
        }
        show();
    }
    inline void yield()
    {
        if (self < 0) return;
        absorb();
        int me = self;
        swapcontext(&T[me].uc, &sched);
    }
    struct Primitive { Primitive() { yield(); } ~Primitive() { show(); } };
    // an atomic used outside the tracked ones (a lock some code adds, say) is tracked from its first use
    inline int loc_of(void const* p, int size)
    {
        for (int l = 0; l < int(L.size()); ++l) if (L[l].p == p) return l;
        if (L.size() >= MAXL) { fprintf(stderr, "driver: too many locations\n"); _exit(3); }
        Loc o{};
        o.p = (unsigned char*)p;
        o.size = size;
        Msg m{};
        memcpy(m.b, p, size);
        o.h.push_back(m);
        memcpy(o.shown, p, size);
        L.push_back(o);
        return int(L.size()) - 1;
    }
    using mo = std::memory_order;
    inline bool acq(mo o) { return o == mo::memory_order_acquire || o == mo::memory_order_acq_rel || o == mo::memory_order_seq_cst || o == mo::memory_order_consume; }
    inline bool rel(mo o) { return o == mo::memory_order_release || o == mo::memory_order_acq_rel || o == mo::memory_order_seq_cst; }
    inline bool sc(mo o) { return o == mo::memory_order_seq_cst; }
    inline char const* name(mo o) { return sc(o) ? "sc" : acq(o) && rel(o) ? "ar" : acq(o) ? "acq" : rel(o) ? "rel" : "rlx"; }

    inline int low(int l, mo o)
    {
        if (self < 0) return last(l);
        int k = T[self].cur.t[l];
        if (sc(o) && SC.t[l] > k) k = SC.t[l];
        return k;
    }
    inline void note(char const* what, int l, mo o, int k, void const* v)
    {
        if (!logging || self < 0) return;
        long long x = 0;
        memcpy(&x, v, L[l].size < 8 ? L[l].size : 8);
        char b[160];
        snprintf(b, sizeof b, "%s[\"%s\",%d,%d,\"%s\",%d,\"%lld\"]", logtext.empty() ? "" : ",", what, self + 1, l + 1, name(o), k + 1, x);
        logtext += b;
    }
    inline void see(int l, int k, mo o)
    {
        if (self < 0) return;
        Thr& t = T[self];
        View const& w = L[l].h[k].v;
        if (k > t.cur.t[l]) t.cur.t[l] = (unsigned char)k;
        if (acq(o)) t.cur = join(t.cur, w);
        t.acq = join(t.acq, w);
    }
    inline void append(int l, void const* v, mo o, View base)
    {
        Msg m{};
        memcpy(m.b, v, L[l].size);
        int k = last(l) + 1;
        if (k > 250) { cut = true; k = 250; }
        if (self >= 0)
        {
            Thr& t = T[self];
            t.cur.t[l] = (unsigned char)k;
            View w = rel(o) ? t.cur : t.rel;
            if (!rel(o)) w.t[l] = (unsigned char)k;
            m.v = join(base, w);
        }
        else { m.v = base; m.v.t[l] = (unsigned char)k; }
        L[l].h.push_back(m);
        if (sc(o)) SC.t[l] = (unsigned char)k;
    }
    inline void read(void const* p, int size, void* out, mo o)
    {
        Primitive scope;
        int l = loc_of(p, size);
        int lo = low(l, o), k = last(l) - choose(last(l) - lo + 1);
        memcpy(out, L[l].h[k].b, size);
        see(l, k, o);
        note("r", l, o, k, out);
    }
    inline void write(void* p, int size, void const* v, mo o)
    {
        Primitive scope;
        int l = loc_of(p, size);
        append(l, v, o, View{});
        note("w", l, o, last(l), v);
    }
    template<class F> inline void rmw(void* p, int size, void* old, mo o, F f)
    {
        Primitive scope;
        int l = loc_of(p, size), k = last(l);
        memcpy(old, L[l].h[k].b, size);
        unsigned char n[16];
        f(old, n);
        see(l, k, o);
        append(l, n, o, L[l].h[k].v);
        note("u", l, o, k + 1, n);
    }
    inline bool cas(void* p, int size, void* expected, void const* desired, mo ok, mo bad, bool weak)
    {
        Primitive scope;
        int l = loc_of(p, size);
        // candidates: success on the newest message, failure on any readable one that differs (or any, spuriously)
        int lo = low(l, bad), hi = last(l), n = 0, cand[256];
        bool can = !memcmp(L[l].h[hi].b, expected, size);
        if (can) cand[n++] = -1;
        for (int k = hi; k >= lo; --k)
            if (memcmp(L[l].h[k].b, expected, size)) cand[n++] = k;
            else if (weak && self >= 0 && T[self].weak > 0) cand[n++] = k;
        int c = cand[choose(n)];
        if (c < 0)
        {
            see(l, hi, ok);
            append(l, desired, ok, L[l].h[hi].v);
            note("u", l, ok, hi + 1, desired);
            return true;
        }
        if (!memcmp(L[l].h[c].b, expected, size)) --T[self].weak;
        memcpy(expected, L[l].h[c].b, size);
        see(l, c, bad);
        note("r", l, bad, c, expected);
        return false;
    }
    inline void fence(mo o)
    {
        Primitive scope;
        if (self < 0) return;
        Thr& t = T[self];
        if (acq(o)) t.cur = join(t.cur, t.acq);
        if (sc(o)) { t.cur = join(t.cur, SC); SC = join(SC, t.cur); }
        if (rel(o)) t.rel = t.cur;
        if (logging) { char b[64]; snprintf(b, sizeof b, "%s[\"f\",%d,0,\"%s\",0,\"0\"]", logtext.empty() ? "" : ",", self + 1, name(o)); logtext += b; }
    }

    // ---- programs --------------------------------------------------------------------------------
    inline std::function<void(int)> body;
    constexpr size_t STACK = 256 * 1024;
    inline char* stacks[MAXT];
    inline void entry(int t) { body(t); absorb(); T[t].done = true; swapcontext(&T[t].uc, &sched); }

    // one execution; false when it was cut short
    inline bool execute(int threads, std::function<void()> const& setup, std::function<void(int)> const& thread)
    {
        L.clear();
        SC = View{};
        self = -1;
        at = 0;
        steps = 0;
        cut = false;
        logtext.clear();
        setup();
        show();
        nt = threads;
        body = thread;
        for (int t = 0; t < nt; ++t)
        {
            T[t].cur = T[t].acq = T[t].rel = View{};
            T[t].done = false;
            T[t].weak = 1;
            for (int l = 0; l < int(L.size()); ++l) T[t].cur.t[l] = (unsigned char)last(l);
            T[t].rel = T[t].acq = T[t].cur;
            if (!stacks[t]) stacks[t] = (char*)malloc(STACK);
            getcontext(&T[t].uc);
            T[t].uc.uc_stack.ss_sp = stacks[t];
            T[t].uc.uc_stack.ss_size = STACK;
            T[t].uc.uc_link = &sched;
            makecontext(&T[t].uc, (void (*)())entry, 1, t);
        }
        for (;;)
        {
            int r[MAXT], n = 0;
            for (int t = 0; t < nt; ++t) if (!T[t].done) r[n++] = t;
            if (!n) break;
            if (++steps > step_limit || cut) { self = -1; show(); return false; }
            self = r[choose(n)];
            show();
            swapcontext(&sched, &T[self].uc);
        }
        self = -1;
        show();
        return true;
    }
}

namespace std
{
    template<class T> struct kit_base
    {
        using value_type = T;
        T v;
        kit_base() noexcept : v{} { }
        constexpr kit_base(T x) noexcept : v(x) { }
        kit_base(kit_base const&) = delete;
        kit_base& operator=(kit_base const&) = delete;
        static constexpr bool is_always_lock_free = sizeof(T) <= 8;
        bool is_lock_free() const volatile { return is_always_lock_free; }
        void* at() const volatile { return (void*)&v; }
        T load(memory_order o = memory_order_seq_cst) const volatile noexcept { T r; wm::read(at(), sizeof(T), &r, o); return r; }
        void store(T x, memory_order o = memory_order_seq_cst) volatile noexcept { wm::write(at(), sizeof(T), &x, o); }
        T exchange(T x, memory_order o = memory_order_seq_cst) volatile noexcept { T r; wm::rmw(at(), sizeof(T), &r, o, [&](void*, void* n) { memcpy(n, &x, sizeof x); }); return r; }
        static memory_order weaker(memory_order o) { return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o; }
        bool compare_exchange_strong(T& e, T d, memory_order a, memory_order b) volatile noexcept { return wm::cas(at(), sizeof(T), &e, &d, a, b, false); }
        bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) volatile noexcept { return wm::cas(at(), sizeof(T), &e, &d, o, weaker(o), false); }
        bool compare_exchange_weak(T& e, T d, memory_order a, memory_order b) volatile noexcept { return wm::cas(at(), sizeof(T), &e, &d, a, b, true); }
        bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) volatile noexcept { return wm::cas(at(), sizeof(T), &e, &d, o, weaker(o), true); }
        operator T() const volatile noexcept { return load(); }
    };
    template<class T, class F> T kit_update(void* p, memory_order o, F f)
    {
        T r;
        wm::rmw(p, sizeof(T), &r, o, [&](void* old, void* n) { T x; memcpy(&x, old, sizeof x); x = f(x); memcpy(n, &x, sizeof x); });
        return r;
    }
    template<class T, int kind = is_pointer<T>::value ? 1 : is_integral<T>::value && !is_same<T, bool>::value ? 2 : 0> struct kit_atomic : kit_base<T>
    {
        kit_atomic() = default;
        constexpr kit_atomic(T x) noexcept : kit_base<T>(x) { }
        T operator=(T x) volatile noexcept { this->store(x); return x; }
    };
#define KIT_RMW(NAME, ARG, EXPR) T NAME(ARG x, memory_order o = memory_order_seq_cst) volatile noexcept { return kit_update<T>(this->at(), o, [&](T v) { return (T)(EXPR); }); }
    template<class T> struct kit_atomic<T, 1> : kit_base<T>
    {
        kit_atomic() = default;
        constexpr kit_atomic(T x) noexcept : kit_base<T>(x) { }
        T operator=(T x) volatile noexcept { this->store(x); return x; }
        KIT_RMW(fetch_add, ptrdiff_t, v + x)
        KIT_RMW(fetch_sub, ptrdiff_t, v - x)
        T operator+=(ptrdiff_t x) volatile noexcept { return fetch_add(x) + x; }
        T operator-=(ptrdiff_t x) volatile noexcept { return fetch_sub(x) - x; }
        T operator++(int) volatile noexcept { return fetch_add(1); }
        T operator--(int) volatile noexcept { return fetch_sub(1); }
    };
    template<class T> struct kit_atomic<T, 2> : kit_base<T>
    {
        kit_atomic() = default;
        constexpr kit_atomic(T x) noexcept : kit_base<T>(x) { }
        T operator=(T x) volatile noexcept { this->store(x); return x; }
        KIT_RMW(fetch_add, T, v + x)
        KIT_RMW(fetch_sub, T, v - x)
        KIT_RMW(fetch_and, T, v & x)
        KIT_RMW(fetch_or, T, v | x)
        KIT_RMW(fetch_xor, T, v ^ x)
        T operator+=(T x) volatile noexcept { return fetch_add(x) + x; }
        T operator-=(T x) volatile noexcept { return fetch_sub(x) - x; }
        T operator&=(T x) volatile noexcept { return fetch_and(x) & x; }
        T operator|=(T x) volatile noexcept { return fetch_or(x) | x; }
        T operator^=(T x) volatile noexcept { return fetch_xor(x) ^ x; }
        T operator++() volatile noexcept { return fetch_add(1) + 1; }
        T operator--() volatile noexcept { return fetch_sub(1) - 1; }
        T operator++(int) volatile noexcept { return fetch_add(1); }
        T operator--(int) volatile noexcept { return fetch_sub(1); }
    };
    // the free functions
    template<class T> using kit_arg = typename kit_base<T>::value_type;
    template<class T> T atomic_load(kit_atomic<T> const* a) { return a->load(); }
    template<class T> T atomic_load_explicit(kit_atomic<T> const* a, memory_order o) { return a->load(o); }
    template<class T> void atomic_store(kit_atomic<T>* a, kit_arg<T> v) { a->store(v); }
    template<class T> void atomic_store_explicit(kit_atomic<T>* a, kit_arg<T> v, memory_order o) { a->store(v, o); }
    template<class T> T atomic_exchange(kit_atomic<T>* a, kit_arg<T> v) { return a->exchange(v); }
    template<class T> T atomic_exchange_explicit(kit_atomic<T>* a, kit_arg<T> v, memory_order o) { return a->exchange(v, o); }
    template<class T> bool atomic_compare_exchange_strong(kit_atomic<T>* a, kit_arg<T>* e, kit_arg<T> v) { return a->compare_exchange_strong(*e, v); }
    template<class T> bool atomic_compare_exchange_weak(kit_atomic<T>* a, kit_arg<T>* e, kit_arg<T> v) { return a->compare_exchange_weak(*e, v); }
    template<class T> bool atomic_compare_exchange_strong_explicit(kit_atomic<T>* a, kit_arg<T>* e, kit_arg<T> v, memory_order x, memory_order y) { return a->compare_exchange_strong(*e, v, x, y); }
    template<class T> bool atomic_compare_exchange_weak_explicit(kit_atomic<T>* a, kit_arg<T>* e, kit_arg<T> v, memory_order x, memory_order y) { return a->compare_exchange_weak(*e, v, x, y); }
    template<class T, class V> T atomic_fetch_add(kit_atomic<T>* a, V v) { return a->fetch_add(v); }
    template<class T, class V> T atomic_fetch_sub(kit_atomic<T>* a, V v) { return a->fetch_sub(v); }
    template<class T, class V> T atomic_fetch_xor(kit_atomic<T>* a, V v) { return a->fetch_xor(v); }
    template<class T, class V> T atomic_fetch_and(kit_atomic<T>* a, V v) { return a->fetch_and(v); }
    template<class T, class V> T atomic_fetch_or(kit_atomic<T>* a, V v) { return a->fetch_or(v); }
    template<class T, class V> T atomic_fetch_add_explicit(kit_atomic<T>* a, V v, memory_order o) { return a->fetch_add(v, o); }
    template<class T, class V> T atomic_fetch_sub_explicit(kit_atomic<T>* a, V v, memory_order o) { return a->fetch_sub(v, o); }
    template<class T, class V> T atomic_fetch_xor_explicit(kit_atomic<T>* a, V v, memory_order o) { return a->fetch_xor(v, o); }
    template<class T, class V> T atomic_fetch_and_explicit(kit_atomic<T>* a, V v, memory_order o) { return a->fetch_and(v, o); }
    template<class T, class V> T atomic_fetch_or_explicit(kit_atomic<T>* a, V v, memory_order o) { return a->fetch_or(v, o); }
    inline void kit_atomic_thread_fence(memory_order o) { wm::fence(o); }
    // one flag is one more atomic
    struct kit_atomic_flag
    {
        kit_atomic<bool> f;
        kit_atomic_flag() = default;
        bool test_and_set(memory_order o = memory_order_seq_cst) { return f.exchange(true, o); }
        void clear(memory_order o = memory_order_seq_cst) { f.store(false, o); }
        bool test(memory_order o = memory_order_seq_cst) const { return f.load(o); }
    };
}
#define atomic kit_atomic
#define atomic_flag kit_atomic_flag
#define atomic_thread_fence kit_atomic_thread_fence
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
