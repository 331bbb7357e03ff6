// kit.h - script interpreter shell shared by the drivers.
// stdin: "S <params>" starts a session, "<op> <args>" runs one operation, "E" ends it.
// stdout: one JSON line per session {"p":[params],"ev":[[op,args...,results...],...]}
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <setjmp.h>
#include <sys/time.h>
#include <stdint.h>
#include <string>
#include <vector>

namespace kit
{
    inline bool expect_error = false;
    inline int error_count = 0;
    inline jmp_buf* error_jump = nullptr;
    inline bool on_error(int level, int argc, char const* argv[][2])
    {
        ++error_count;
        if (!expect_error)
        {
            fprintf(stderr, "ASSERT %s %s %s (%s)\n", argv[0][0], argv[0][1], argv[1][0], argv[1][1]);
            _exit(77);
        }
        if (error_jump) longjmp(*error_jump, 1);
        return false;
    }

    using str = std::string;
    using toks = std::vector<std::string>;

    struct Json
    {
        str s;
        bool first = true;
        Json& raw(str const& v) { if (!first) s += ','; first = false; s += v; return *this; }
        Json& i(long long v) { return raw(std::to_string(v)); }
        Json& b(bool v) { return raw(v ? "true" : "false"); }
        // big numbers travel as decimal strings
        Json& u64(unsigned long long v) { return raw("\"" + std::to_string(v) + "\""); }
        Json& i64(long long v) { return raw("\"" + std::to_string(v) + "\""); }
        Json& q(str const& v)
        {
            str r = "\"";
            for (unsigned char c : v)
            {
                if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
                else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
                else r += char(c);
            }
            return raw(r + "\"");
        }
        Json& arr(Json const& a) { return raw("[" + a.s + "]"); }
        Json& bytes(void const* p, size_t n) { Json a; for (size_t k = 0; k < n; ++k) a.i(((unsigned char const*)p)[k]); return arr(a); }
    };

    inline Json events;
    inline str params_json;

    inline void ev(Json const& j) { events.raw("[" + j.s + "]"); }

    inline long long I(str const& s) { return strtoll(s.c_str(), nullptr, 0); }
    inline unsigned long long U(str const& s) { return strtoull(s.c_str(), nullptr, 0); }

    // a session that does not end: processor time counts, so a busy machine is no hang; one that only waits ends as well
    inline void limit(int seconds)
    {
        char const* e = getenv("KIT_SECONDS");
        if (seconds && e) seconds = atoi(e);
        itimerval v{}; v.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &v, nullptr);
        alarm(unsigned(seconds * 3));
    }
    inline void bad(str const& s) { fprintf(stderr, "driver: bad op %s\n", s.c_str()); _exit(3); }

    // hex encoded bytes ("-" is empty)
    inline str unhex(str const& h)
    {
        str r;
        if (h == "-") return r;
        for (size_t k = 0; k + 1 < h.size(); k += 2) r += char(strtol(h.substr(k, 2).c_str(), nullptr, 16));
        return r;
    }

    struct Session { virtual ~Session() {} virtual void op(toks const& t) = 0; virtual void end() {} };

    inline int run(Session* (*make)(toks const&))
    {
        char* line = nullptr;
        size_t cap = 0;
        Session* s = nullptr;
        ssize_t n;
        while ((n = getline(&line, &cap, stdin)) > 0)
        {
            toks t;
            for (char* p = line; *p;)
            {
                while (*p == ' ' || *p == '\n') ++p;
                char* q = p;
                while (*p && *p != ' ' && *p != '\n') ++p;
                if (p > q) t.push_back(str(q, p - q));
            }
            if (t.empty()) continue;
            if (t[0] == "S")
            {
                limit(40);
                events = Json{};
                Json p;
                for (size_t k = 1; k < t.size(); ++k)
                {
                    bool num = t[k].size() < 9;
                    for (size_t c = 0; c < t[k].size(); ++c) if (!(t[k][c] >= '0' && t[k][c] <= '9') && !(c == 0 && t[k][c] == '-' && t[k].size() > 1)) num = false;
                    if (num) p.i(I(t[k])); else p.q(t[k]);
                }
                params_json = p.s;
                t.erase(t.begin());
                s = make(t);
            }
            else if (t[0] == "E")
            {
                s->end();
                delete s;
                s = nullptr;
                printf("{\"p\":[%s],\"ev\":[%s]}\n", params_json.c_str(), events.s.c_str());
                fflush(stdout);
            }
            else
                s->op(t);
        }
        return 0;
    }
}

#ifndef KIT_NO_ERROR_HOOK
#define CE_USER_ERROR_HOOK(LEVEL, ARGC, ...) ::kit::on_error(LEVEL, ARGC, __VA_ARGS__)
#endif
#ifndef KIT_NO_LOG_HOOK
#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) (void)(__VA_ARGS__)
#endif
