#include "kit.h"
#include <ce/ce.h>
#include <ce/lziii.h>
using namespace kit;
using namespace ce;

// exact heap copy: the sanitizer sees any access outside
template<class T> struct Block
{
    T* p; size_t n;
    Block(size_t n, void const* src = nullptr) : p((T*)malloc(n * sizeof(T) + !n)), n(n) { if (src) memcpy((void*)p, src, n * sizeof(T)); else memset((void*)p, 0xcd, n * sizeof(T)); }
    ~Block() { free(p); }
};

struct Z1 { static constexpr uint8_t data[] = { 0x1f, 1, 2, 3, 4, 5, 0xff, 0xff, 0xfb, 0x1f, 0xf0, 0x4f }; static constexpr size_t size = sizeof data; };
struct Z2 { static constexpr uint8_t data[] = { 0xff, 9, 8, 7, 6, 5, 4, 3, 2, 0x02, 0xf8, 0x0f, 0x41, 0xff, 0xff, 0xe5, 0x1f }; static constexpr size_t size = sizeof data; };
struct Z3 { static constexpr uint8_t data[] = { 0x01, 0x80 }; static constexpr size_t size = sizeof data; };
struct B1 { static constexpr char data[] = "AQIDBAUGBwgJ+/8="; };
struct B2 { static constexpr char data[] = "////"; };
struct B3 { static constexpr char data[] = "SGVsbG8gd29ybGQ="; };
// more than 255 bytes of either
#define F8 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff
#define F16 F8, F8
struct Z4 { static constexpr uint8_t data[] = { 0x01, 65, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x00, F16, 0x00, F16, 0xff, 1, 2, 3, 4, 5, 6, 7, 8 }; static constexpr size_t size = sizeof data; };
#define L8(n) 0xff, n, n + 1, n + 2, n + 3, n + 4, n + 5, n + 6, n + 7
#define L64(n) L8(n), L8(n + 8), L8(n + 16), L8(n + 24), L8(n + 32), L8(n + 40), L8(n + 48), L8(n + 56)
struct Z5 { static constexpr uint8_t data[] = { L64(0), L64(64), L64(128), L64(192), L64(7), 0x00, 0x00, 0xff }; static constexpr size_t size = sizeof data; };
#define A60 "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8gISIjJCUmJygpKiss"
struct B5 { static constexpr char data[] = A60 A60 A60 A60 A60 A60 A60 "Kw=="; };
struct B4 { static constexpr char data[] = "AA=="; };

struct S : Session
{
    // --- lziii: an encoder of our own
    str enc; size_t ctl = 0; int k = 8;
    void token(int bit, str const& b)
    {
        if (k == 8) { ctl = enc.size(); enc += char(0); k = 0; }
        enc[ctl] = char(enc[ctl] | bit << k++);
        enc += b;
    }
    template<class Z> void lz_static()
    {
        static constexpr ce::lziii::decoder<Z> d;
        Json j; j.q("static").bytes(Z::data, Z::size).i(sizeof d.data).bytes(d.data, sizeof d.data); ev(j);
    }
    template<class B> void b64_static(str const& orig)
    {
        static constexpr ce::base64::decoder<B> d;
        Json j; j.q("static").bytes(orig.data(), orig.size()).bytes(B::data, sizeof B::data - 1).i(sizeof d.data).bytes(d.data, sizeof d.data); ev(j);
    }
    // --- crc
    uint32_t crc = 0;
    template<class T, uint32_t P> void feed(str const& how, str const& b, Json const* rule = nullptr)
    {
        if (how == "8") { Block<uint8_t> x(b.size(), b.data()); crc = uint32_t(ce::crc32(T(crc), x.n, x.p)); }
        else if (how == "32") { Block<uint32_t> x(b.size() / 4, b.data()); crc = uint32_t(ce::crc32(T(crc), x.n, x.p)); }
        else if (how == "64") { Block<uint64_t> x(b.size() / 8, b.data()); crc = uint32_t(ce::crc32(T(crc), x.n, x.p)); }
        else bad(how);
        Json j;
        if (rule) j.q("long").u64(P).q(how).raw(rule->s).u64(crc);
        else j.q("feed").u64(P).q(how).bytes(b.data(), b.size()).u64(crc);
        ev(j);
    }
    template<size_t N> void crc_text(char const (&s)[N])
    {
        Json j; j.q("feed").u64(0x82f63b78).q("text").bytes(s, N - 1).u64(ce::crc32c(s)); ev(j);
    }
    template<size_t N> void crc_text0(char const (&s)[N]) { Json r; r.q("start").u64(0); ev(r); crc_text(s); }
    template<size_t N> void crc_fill(char f)
    {
        struct { char s[N]; } *b = (decltype(b))malloc(N);
        for (size_t n = 0; n < N; ++n) b->s[n] = char(f + n * 37);
        crc_text0(b->s);
        free(b);
    }
    // --- fnv
    uint32_t h32 = 0; uint64_t h64 = 0; Json* rule = nullptr;
    template<class U> void fnv(str const& op, str const& how, int w, str const& b)
    {
        Block<U> x(b.size() / sizeof(U), b.data());
        uint64_t r;
        if (op == "hash") r = w == 32 ? ce::hash::fnv1a32(x.n, x.p) : ce::hash::fnv1a64(x.n, x.p);
        else r = w == 32 ? (h32 = ce::hash::fnv1a32(x.n, x.p, h32)) : (h64 = ce::hash::fnv1a64(x.n, x.p, h64));
        Json j; j.q(rule ? "long" : op).i(w).q(how);
        if (rule) j.raw(rule->s); else j.bytes(b.data(), b.size());
        j.u64(r); ev(j);
    }

    void op(toks const& t) override
    {
        Json j;
        auto& o = t[0];
        if (o == "lit") { token(1, str(1, char(I(t[1])))); j.q(o).i(I(t[1])); ev(j); }
        else if (o == "span")
        {
            int len = int(I(t[1])), off = int(I(t[2])), v = 4096 - off;
            char b[2] = { char(v), char((len - 3) * 16 + v / 256) };
            token(0, str(b, 2)); j.q(o).i(len).i(off); ev(j);
        }
        else if (o == "lits")
        {
            for (int64_t n = 0; n < I(t[1]); ++n) token(1, str(1, char(I(t[2]) + n * I(t[3]))));
            j.q(o).i(I(t[1])).i(I(t[2])).i(I(t[3])); ev(j);
        }
        else if (o == "spans")
        {
            int len = int(I(t[2])), off = int(I(t[3])), v = 4096 - off;
            char b[2] = { char(v), char((len - 3) * 16 + v / 256) };
            for (int64_t n = 0; n < I(t[1]); ++n) token(0, str(b, 2));
            j.q(o).i(I(t[1])).i(len).i(off); ev(j);
        }
        else if (o == "check")
        {
            Block<uint8_t> src(enc.size(), enc.data());
            size_t n = ce::lziii::size(src.n, src.p);
            Block<uint8_t> dst(n < 1000000 ? n : 0);
            if (n < 1000000) ce::lziii::decode(n, dst.p, src.p);
            j.q(o).bytes(enc.data(), enc.size()).i(n < 1000000 ? n : -1).bytes(dst.p, dst.n); ev(j);
        }
#ifdef STATICS
        else if (o == "lzstatic") { lz_static<Z1>(); lz_static<Z2>(); lz_static<Z3>(); lz_static<Z4>(); lz_static<Z5>(); }
        else if (o == "b64static")
        {
            b64_static<B1>(str("\x01\x02\x03\x04\x05\x06\x07\x08\x09\xfb\xff", 11));
            b64_static<B2>("\xff\xff\xff"); b64_static<B3>("Hello world"); b64_static<B4>(str(1, '\0'));
            str x;
            for (int n = 0; n < 7 * 45; ++n) x += char(n % 45);
            b64_static<B5>(x + '+');
        }
#else
        else if (o == "lzstatic" || o == "b64static" || o == "fstatic") return;
#endif
        else if (o == "size") { j.q(o).u64(U(t[1])).u64(ce::base64::size(size_t(U(t[1])))); ev(j); }
        else if (o == "raw" || o == "pad")   // t[1] bytes, t[2] what follows the text
        {
            str b = unhex(t[1]), text;
            static char const A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            for (size_t k = 0; k < b.size(); k += 3)
            {
                unsigned v = 0; size_t m = b.size() - k < 3 ? b.size() - k : 3;
                for (size_t q = 0; q < 3; ++q) v = v << 8 | (q < m ? uint8_t(b[k + q]) : 0);
                for (size_t q = 0; q <= m; ++q) text += A[v >> (18 - 6 * q) & 63];
            }
            size_t body = text.size();
            if (o == "pad") while (text.size() % 4) text += '=';
            str ended = text.size() > body ? text.substr(0, body + 1) : text + unhex(t[2]).substr(0, 1);
            if (ended.size() == body) ended += '\0';
            Block<char> sized(ended.size(), ended.data());   // up to the first character that is not text
            size_t n = ce::base64::size(sized.p);
            Block<char> src(body, text.data());              // only the text itself
            Block<uint8_t> dst(n <= b.size() + 4 ? n : 0);
            if (dst.n == n) ce::base64::decode(n, dst.p, n <= body ? src.p : sized.p);
            j.q(o).bytes(b.data(), b.size()).bytes(text.data(), text.size()).i(n).bytes(dst.p, dst.n); ev(j);
        }
        else if (o == "start") { crc = uint32_t(U(t[1])); j.q(o).u64(crc); ev(j); }
        else if (o == "feed" || o == "long") // long: number of bytes and the rule they follow
        {
            uint32_t P = uint32_t(U(t[1]));
            str b;
            Json made, *rule = nullptr;
            if (o == "long")
            {
                for (long k = 0; k < I(t[3]); ++k) b += char(k % 256 * I(t[4]) + k / 256 * I(t[5]));
                made.i(I(t[3])).i(I(t[4])).i(I(t[5]));
                rule = &made;
            }
            else b = unhex(t[3]);
#ifdef CRC
            if (P == 0x82f63b78) feed<ce::crc32c_t, 0x82f63b78>(t[2], b, rule);
            else if (P == 0xedb88320) feed<ce::crc32_t<0xedb88320>, 0xedb88320>(t[2], b, rule);
            else if (P == 0xeb31d82e) feed<ce::crc32_t<0xeb31d82e>, 0xeb31d82e>(t[2], b, rule);
            else if (P == 0x80000001) feed<ce::crc32_t<0x80000001>, 0x80000001>(t[2], b, rule);
            else
#endif
            bad(t[1]);
        }
#ifdef CRC
        else if (o == "crctext")
        {
            crc_text0(""); crc_text0("123456789"); crc_text0("a"); crc_text0("\xff\x80\x7f"); crc_text0("The quick brown fox jumps over the lazy dog"); crc_text0("a\0b");
            crc_fill<1>(0); crc_fill<2>(-1); crc_fill<5>(100); crc_fill<33>(3); crc_fill<100>(77); crc_fill<300>(5);
#ifdef STATICS
            // constant evaluation of the array forms
            static constexpr uint8_t a8[] = { 1, 2, 3, 250, 251, 252, 253, 254 };
            static constexpr uint32_t a32[] = { 0xfa030201, 0xfefdfcfb };
            static constexpr uint64_t a64[] = { 0xfefdfcfbfa030201 };
            constexpr auto r8 = uint32_t(ce::crc32(ce::crc32c_t(77), 8, a8));
            constexpr auto r32 = uint32_t(ce::crc32(ce::crc32c_t(77), 2, a32));
            constexpr auto r64 = uint32_t(ce::crc32(ce::crc32c_t(77), 1, a64));
            for (uint32_t r : { r8, r32, r64 })
            {
                Json s; s.q("start").u64(77); ev(s);
                Json f; f.q("feed").u64(0x82f63b78).q("static").bytes(a8, 8).u64(r); ev(f);
            }
#endif
        }
#endif
        else if (o == "fresh") { h32 = ce::hash::fnv1a32(0, (uint8_t*)nullptr); h64 = ce::hash::fnv1a64(0, (uint8_t*)nullptr); j.q(o); ev(j); }
        else if (o == "fstart") { if (t[1] == "32") h32 = uint32_t(U(t[2])); else h64 = U(t[2]); j.q("start").i(I(t[1])).u64(t[1] == "32" ? h32 : h64); ev(j); }
        else if (o == "ffeed" || o == "fhash" || o == "flong")
        {
            int w = int(I(t[1])); str b, q = o == "flong" ? "hash" : o.substr(1);
            Json made;
            rule = nullptr;
            if (o == "flong")
            {
                for (long k = 0; k < I(t[3]); ++k) b += char(1 + (k % 255 * I(t[4]) + k / 255 * I(t[5])) % 255);
                made.i(I(t[3])).i(I(t[4])).i(I(t[5]));
                rule = &made;
            }
            else b = unhex(t[3]);
            auto& how = t[2];
            if (how == "u8") fnv<uint8_t>(q, how, w, b);
            else if (how == "i8") fnv<int8_t>(q, how, w, b);
            else if (how == "char") fnv<char>(q, how, w, b);
            else if (how == "u16") fnv<uint16_t>(q, how, w, b);
            else if (how == "i16") fnv<int16_t>(q, how, w, b);
            else if (how == "u32") fnv<uint32_t>(q, how, w, b);
            else if (how == "i32") fnv<int32_t>(q, how, w, b);
            else if (how == "u64") fnv<uint64_t>(q, how, w, b);
            else if (how == "i64") fnv<int64_t>(q, how, w, b);
            else if (how == "text")
            {
                Block<char> x(b.size() + 1, b.c_str());
                j.q(rule ? "long" : "hash").i(32).q(how);
                if (rule) j.raw(rule->s); else j.bytes(b.data(), b.size());
                j.u64(ce::hash::fnv1a(x.p)); ev(j);
            }
            else bad(how);
        }
#ifdef STATICS
        else if (o == "fstatic")
        {
            static constexpr int16_t a[] = { -2, 300 };
            constexpr auto r = ce::hash::fnv1a32(2, a);
            constexpr auto q = ce::hash::fnv1a64(2, a);
            constexpr auto x = ce::hash::fnv1a("static \xe2\x82\xac");
            j.q("hash").i(32).q("static").bytes(a, 4).u64(r); ev(j);
            Json k; k.q("hash").i(64).q("static").bytes(a, 4).u64(q); ev(k);
            Json m; m.q("hash").i(32).q("static").bytes("static \xe2\x82\xac", 10).u64(x); ev(m);
        }
#endif
        else bad(o);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
