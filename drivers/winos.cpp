// O01, K02: the OS layer's files, and its Windows form over a stand-in for the Windows API (compiled with -fshort-wchar)
#include "kit.h"
#include <string>
#include <map>
#ifdef KIT_WIN32
#include "win32os/windows.h"
#define _WIN32 1
#define _alloca(N) __builtin_alloca(N)
#endif
#include "ce/ce.h"
#ifdef KIT_WIN32
#include "os_win32.cpp"
#undef _WIN32
#endif
using namespace kit;
using ce::uint8_t; using ce::uint32_t; using ce::uint64_t;

static str utf8(std::vector<unsigned> const& q)
{
    str r;
    for (unsigned c : q)
    {
        if (c < 0x80) r += char(c);
        else if (c < 0x800) r += char(0xc0 | c >> 6), r += char(0x80 | (c & 63));
        else if (c < 0x10000) r += char(0xe0 | c >> 12), r += char(0x80 | (c >> 6 & 63)), r += char(0x80 | (c & 63));
        else r += char(0xf0 | c >> 18), r += char(0x80 | (c >> 12 & 63)), r += char(0x80 | (c >> 6 & 63)), r += char(0x80 | (c & 63));
    }
    return r;
}
struct S : Session
{
    static constexpr int K = 3;
    ce::os::file_t file[K + 1];
    ce::span<uint8_t const> view[K + 1];
    std::vector<std::u16string> names{ u"" };
    std::vector<str> paths{ "" };
    static constexpr bool windows =
#ifdef KIT_WIN32
        true;
#else
        false;
#endif
    S()
    {
        for (int k = 0; k <= K; ++k)
        {
            view[k] = { };
            file[k].os_handle = (void*)-1;
        }
#ifdef KIT_WIN32
        win::files.clear(); win::live.clear(); win::views.clear(); win::misuse = false; win::refuse = "";
#endif
    }
    ~S() override
    {
#ifdef KIT_WIN32
        for (auto& v : win::views) free((void*)v.first);
        win::views.clear();
        for (auto& b : win::blocks) free(b.first);
        win::blocks.clear();
#endif
    }
    // live file handles and views per file, mappings, whether the OS was misused, files as they are
    void see(Json& j)
    {
        Json hs, vs, ss, fs;
#ifdef KIT_WIN32
        int maps = 0;
        std::map<std::u16string, int> h, v;
        for (auto& l : win::live) if (l.second.kind == 1) ++h[l.second.file]; else ++maps;
        for (auto& l : win::views) ++v[l.second];
        for (size_t k = 1; k < names.size(); ++k)
        {
            hs.i(h[names[k]]); vs.i(v[names[k]]);
            auto f = win::files.find(names[k]);
            fs.i(f == win::files.end() ? -1 : (int)f->second.size());
        }
        fs.i((int)win::files.size());
        j.arr(hs).arr(vs).i(maps).b(win::misuse).arr(fs);
#else
        j.arr(hs).arr(vs).i(0).b(false).arr(fs);
#endif
        for (int k = 1; k <= K; ++k) ss.bytes(view[k].data, view[k].size);
        j.arr(ss);
    }
    void refuse(str const& what)
    {
#ifdef KIT_WIN32
        win::refuse = what == "none" ? "" : what;
#endif
    }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        auto n = [&](size_t k) { return int(I(t[k])); };
        if (t[0] == "file") // path as code points up to "/", then contents or "none"
        {
            std::vector<unsigned> q; Json jq, jc;
            std::u16string w; size_t k = 1;
            for (; t[k] != "/"; ++k)
            {
                unsigned c = unsigned(U(t[k])); q.push_back(c); jq.i(c);
                if (c < 0x10000) w += char16_t(c); else w += char16_t(0xd800 + ((c - 0x10000) >> 10)), w += char16_t(0xdc00 + ((c - 0x10000) & 1023));
            }
            bool none = t[++k] == "none";
            str body;
            if (!none) for (int c = 0, m = n(k), d = n(k + 1); c < m; ++c) body += char(c * 7 + d), jc.i((c * 7 + d) & 255);
            names.push_back(w); paths.push_back(utf8(q));
#ifdef KIT_WIN32
            if (!none) win::files[w] = body;
#endif
            j.b(!none).arr(jc); ev(j);
            return;
        }
        // the last token is the OS call that refuses
        if (t[0] == "path") // opens and closes a path that is nowhere: what the OS was asked for
        {
            Json a, b; std::vector<unsigned> q;
            if (t.size() > 1 && t[1] == "run") { unsigned c = unsigned(U(t[2])); for (int k = n(3); k; ++c) if (c < 0xd800 || c > 0xdfff) { if (c > 0x10ffff) break; q.push_back(c); --k; } }
            else for (size_t k = 1; k < t.size(); ++k) q.push_back(unsigned(U(t[k])));
            for (unsigned c : q) a.i(c);
            str p = utf8(q);
            ce::os::file_t f{ };
            bool r = ce::os::open_file(f, p.c_str());
#ifdef KIT_WIN32
            for (char16_t c : win::asked) b.i(c);
#endif
            j.arr(a).arr(b).b(r); ev(j);
            return;
        }
        if (t[0] == "open") { refuse(t[3]); bool r = ce::os::open_file(file[n(1)], paths[n(2)].c_str()); j.i(n(1)).i(n(2)).q(t[3]).b(r); }
        else if (t[0] == "close") { refuse(t[2]); bool r = ce::os::close_file(file[n(1)]); j.i(n(1)).i(0).q(t[2]).b(r); }
        else if (t[0] == "map") { refuse(t[3]); bool r = ce::os::map_span(view[n(1)], file[n(2)]); j.i(n(1)).i(n(2)).q(t[3]).b(r).b(view[n(1)].data == nullptr); }
        else if (t[0] == "mapp") { refuse(t[3]); bool r = ce::os::map_span(view[n(1)], paths[n(2)].c_str()); j.i(n(1)).i(n(2)).q(t[3]).b(r).b(view[n(1)].data == nullptr); }
        else if (t[0] == "typed") // view, path, fault: as 32 bit items
        {
            refuse(t[3]);
            auto s = ce::os::map_span<uint32_t>(paths[n(2)].c_str());
            view[n(1)] = { s.size * 4, (uint8_t const*)s.data };
            j.i(n(1)).i(n(2)).q(t[3]).i((int)s.size).b(s.data == nullptr);
        }
        else if (t[0] == "unmap") { refuse("none"); bool r = ce::os::unmap_span(view[n(1)]); j.i(n(1)).i(0).q("none").b(r).b(view[n(1)].data == nullptr); }
        else if (t[0] == "huge") // how, size: maps a file of that size
        {
            refuse("none");
            uint64_t m = U(t[2]);
            bool items = t[1] == "typed", r;
            if (items) m = m * 4 + m % 4;
            ce::span<uint8_t const> s{ 1, (uint8_t const*)"" };
            Json b; int live = 0; bool bad = false;
#ifdef KIT_WIN32
            win::files[u"huge"] = "";
            win::huge[u"huge"] = m;
#endif
            if (items)
            {
                auto d = ce::os::map_span<uint32_t>("huge");
                r = d.data != nullptr;
                s = { d.size, (uint8_t const*)d.data };
            }
            else if (t[1] == "path") r = ce::os::map_span(s, "huge");
            else
            {
                ce::os::file_t f{ };
                r = ce::os::open_file(f, "huge");
                r = ce::os::map_span(s, f) && r;
                ce::os::close_file(f);
            }
            uint64_t size = s.size;
            uint64_t bytes = items ? size * 4 : size;
#ifdef KIT_WIN32
            for (int k = 0; k < 5; ++k) { uint64_t at = win::marks(m, k); if (r && at < bytes) { Json x; x.i(k).i(s.data[at]); b.arr(x); } }
#endif
            bool u = ce::os::unmap_span(s);
#ifdef KIT_WIN32
            live = int(win::live.size() + win::views.size());
            bad = win::misuse && r;
            win::misuse = false;
            win::files.erase(u"huge");
            win::huge.clear();
#endif
            j.q(t[1]).q(t[2]).b(r).q(std::to_string(size)).arr(b).b(u).i(live).b(bad);
            ev(j);
            return;
        }
        else if (t[0] == "alloc")
        {
            refuse(t[2]);
            size_t m = size_t(U(t[1]));
            uint8_t* p = ce::os::virtual_alloc(m);
            bool zero = true;
            if (p) for (size_t k = 0; k < m; ++k) { zero = zero && p[k] == 0; p[k] = 1; }
            j.q(t[1]).q(t[2]).b(p != nullptr).b(zero); ev(j);
            return;
        }
#ifdef KIT_WIN32
        else if (t[0] == "debug") { str s = unhex(t[1]); win::debug = ""; ce::os::debug_out(s.c_str()); j.bytes(s.data(), s.size()).bytes(win::debug.data(), win::debug.size()); ev(j); return; }
        else if (t[0] == "wstamp") { win::counter = U(t[1]); win::frequency = U(t[2]); j.u64(U(t[1])).u64(U(t[2])); uint64_t a = ce::os::monotonic_timestamp(), b = ce::os::monotonic_frequency(); j.u64(a).u64(b); ev(j); return; }
        else if (t[0] == "wsleep") { win::sleeps.clear(); ce::os::sleep_ns(U(t[1])); Json a; for (DWORD d : win::sleeps) a.u64(d); j.u64(U(t[1])).arr(a); ev(j); return; }
#endif
        else bad(t[0]);
        see(j);
        ev(j);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
