// a stand-in for the Windows API behind os_win32.cpp: a few files in memory, live handles, injected refusals
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
typedef int BOOL;
typedef uint32_t DWORD;
typedef uint32_t UINT;
typedef long LONG;
typedef unsigned long long ULONGLONG;
typedef long long LONGLONG;
typedef size_t SIZE_T;
typedef void* HANDLE;
typedef void* LPVOID;
typedef void* PVOID;
typedef void const* LPCVOID;
typedef char const* LPCSTR;
typedef wchar_t const* LPCWSTR;
typedef wchar_t WCHAR;
typedef unsigned char BYTE;
union LARGE_INTEGER { struct { DWORD LowPart; int32_t HighPart; }; struct { DWORD LowPart; int32_t HighPart; } u; LONGLONG QuadPart; };
typedef LARGE_INTEGER* PLARGE_INTEGER;
#define TRUE 1
#define FALSE 0
#define WINAPI
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1u
#define CREATE_ALWAYS 2u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define TRUNCATE_EXISTING 5u
#define FILE_ATTRIBUTE_NORMAL 128u
#define FILE_FLAG_SEQUENTIAL_SCAN 0x08000000u
#define FILE_FLAG_RANDOM_ACCESS 0x10000000u
#define PAGE_NOACCESS 1u
#define PAGE_READONLY 2u
#define PAGE_READWRITE 4u
#define PAGE_WRITECOPY 8u
#define FILE_MAP_WRITE 2u
#define FILE_MAP_READ 4u
#define FILE_MAP_COPY 1u
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
#define MEM_RELEASE 0x8000u
#define INFINITE 0xffffffffu
namespace win
{
    struct handle { int kind; std::u16string file; bool write; uint64_t size; };  // 1 file, 2 mapping
    inline std::map<std::u16string, std::string> files;
    inline std::map<uintptr_t, handle> live;
    inline std::map<void const*, std::u16string> views;
    inline std::map<std::u16string, uint64_t> huge;  // files too large to hold: zeros but for the marks
    inline std::map<void const*, size_t> hugeviews;
    inline uint64_t marks(uint64_t size, int k) { uint64_t m[]{ 0, 65536, 1ull << 31, 1ull << 32, size - 1 }; return m[k]; }
    inline uint64_t size(std::u16string const& f) { auto i = huge.find(f); return i != huge.end() ? i->second : uint64_t(files[f].size()); }
    inline std::u16string asked;                 // the last path CreateFileW was given
    inline bool opened, misuse;
    inline std::string refuse;                   // the call that refuses, this time
    inline uintptr_t last = 4;
    inline uint64_t counter, frequency;
    inline std::vector<DWORD> sleeps;
    inline std::string debug;
    inline std::vector<std::pair<void*, size_t>> blocks;
    inline HANDLE put(handle h) { last += 4; live[last] = h; return (HANDLE)last; }
    inline handle* at(HANDLE h, int kind) { auto i = live.find((uintptr_t)h); return i == live.end() || i->second.kind != kind ? nullptr : &i->second; }
}
inline HANDLE CreateFileW(LPCWSTR path, DWORD access, DWORD share, void*, DWORD how, DWORD, HANDLE)
{
    static_assert(sizeof(wchar_t) == 2, "");
    win::asked = (char16_t const*)path;
    win::opened = true;
    bool has = win::files.count(win::asked) != 0;
    if (win::refuse == "create" || (has && how == CREATE_NEW) || (!has && (how == OPEN_EXISTING || how == TRUNCATE_EXISTING))) return INVALID_HANDLE_VALUE;
    if (!has || how == CREATE_ALWAYS || how == TRUNCATE_EXISTING) win::files[win::asked] = "";
    // somebody else has every file open for reading: others have to share that
    if (!(share & FILE_SHARE_READ)) return INVALID_HANDLE_VALUE;
    return win::put({ 1, win::asked, (access & GENERIC_WRITE) != 0 || !(access & GENERIC_READ), 0 });
}
inline BOOL GetFileSizeEx(HANDLE f, PLARGE_INTEGER n)
{
    auto* h = win::at(f, 1);
    if (!h || win::refuse == "size") return FALSE;
    n->QuadPart = LONGLONG(win::size(h->file));
    return TRUE;
}
inline DWORD GetFileSize(HANDLE f, DWORD* hi)
{
    auto* h = win::at(f, 1);
    if (!h || win::refuse == "size") return 0xffffffffu;
    if (hi) *hi = DWORD(win::size(h->file) >> 32);
    return DWORD(win::size(h->file));
}
inline HANDLE CreateFileMappingW(HANDLE f, void*, DWORD protect, DWORD hi, DWORD lo, LPCWSTR name)
{
    auto* h = win::at(f, 1);
    uint64_t n = uint64_t(hi) << 32 | lo;
    if (!h || h->write || protect != PAGE_READONLY || win::refuse == "mapping") return nullptr;
    uint64_t size = win::size(h->file);
    if (size == 0 || n > size) return nullptr;      // an empty file has no mapping, a read only one does not grow
    return win::put({ 2, h->file, false, n ? n : size });
}
inline LPVOID MapViewOfFile(HANDLE m, DWORD access, DWORD ohi, DWORD olo, SIZE_T n)
{
    auto* h = win::at(m, 2);
    uint64_t o = uint64_t(ohi) << 32 | olo;
    if (!h || access != FILE_MAP_READ || win::refuse == "view" || o > h->size || n > h->size - o) return nullptr;
    if (n == 0) n = SIZE_T(h->size - o);
    if (win::huge.count(h->file))
    {
        void* q = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) abort();
        for (int k = 0; k < 5; ++k)
        {
            uint64_t at = win::marks(win::huge[h->file], k);
            if (at >= o && at - o < n) ((unsigned char*)q)[at - o] = (unsigned char)(k * 17 + 3);
        }
        win::views[q] = h->file;
        win::hugeviews[q] = n;
        return q;
    }
    char* p = (char*)malloc(n);
    memcpy(p, win::files[h->file].data() + o, n);
    win::views[p] = h->file;
    return p;
}
inline BOOL UnmapViewOfFile(LPCVOID p)
{
    if (!win::views.erase(p)) { if (p) win::misuse = true; return FALSE; }
    auto i = win::hugeviews.find(p);
    if (i != win::hugeviews.end()) { munmap((void*)p, i->second); win::hugeviews.erase(i); }
    else free((void*)p);
    return TRUE;
}
inline BOOL CloseHandle(HANDLE h)
{
    if (win::live.erase((uintptr_t)h)) return win::refuse == "close" ? FALSE : TRUE;
    if (h != INVALID_HANDLE_VALUE && h != nullptr) win::misuse = true;
    return FALSE;
}
inline LPVOID VirtualAlloc(LPVOID at, SIZE_T n, DWORD type, DWORD protect)
{
    if (at || n == 0 || type != (MEM_COMMIT | MEM_RESERVE) || protect != PAGE_READWRITE || win::refuse == "alloc") return nullptr;
    void* p = calloc(n, 1);
    win::blocks.push_back({ p, n });
    return p;
}
inline BOOL QueryPerformanceCounter(PLARGE_INTEGER n) { n->QuadPart = LONGLONG(win::counter); return TRUE; }
inline BOOL QueryPerformanceFrequency(PLARGE_INTEGER n) { n->QuadPart = LONGLONG(win::frequency); return TRUE; }
inline DWORD SleepEx(DWORD ms, BOOL) { win::sleeps.push_back(ms); return 0; }
inline void Sleep(DWORD ms) { win::sleeps.push_back(ms); }
inline void OutputDebugStringA(LPCSTR s) { win::debug += s; }
inline DWORD GetLastError() { return 0; }
