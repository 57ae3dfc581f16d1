#include <cstring>
#include <memory>
#include <string>
#include "engine.h"
#include "model.h"
#include "src/base64.h"
using jed_utils::Base64;

static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// Reference written from RFC 4648; the line break rule is the library's own.
static std::string ref(const std::string &in, bool brk_after_padded) {
    std::string plain;
    for (size_t i = 0; i < in.size(); i += 3) {
        unsigned v = 0;
        size_t k = std::min<size_t>(3, in.size() - i);
        for (size_t j = 0; j < 3; j++) v = v << 8 | (j < k ? static_cast<unsigned char>(in[i + j]) : 0);
        for (size_t j = 0; j < 4; j++) plain += j <= k ? T[v >> (18 - 6 * j) & 63] : '=';
    }
    std::string o;
    for (size_t i = 0; i < plain.size(); i += 65536) {
        o.append(plain, i, 65536);
        if (i + 65536 <= plain.size()) {
            bool last = i + 65536 == plain.size();
            if (!(last && in.size() % 3 && !brk_after_padded)) o += "\r\n";
        }
    }
    return o;
}
static std::string gen(pbt::Src &s) {
    size_t n = 0;
    switch (s.weighted({10, 4, 3})) {
    case 0: n = static_cast<size_t>(s.range(0, 40)); break;
    case 1: n = static_cast<size_t>(s.range(0, 3000)); break;
    default: { int64_t k = s.range(1, 3); n = static_cast<size_t>(49152 * k + s.range(-5, 5) * (s.chance(1, 3) ? 700 : 1)); }
    }
    std::string o;
    uint64_t x = s.bits(8);
    size_t mode = s.weighted({5, 1, 1, 1});
    for (size_t i = 0; i < n; i++) {
        unsigned char c;
        if (n <= 64) c = s.byte();
        else { x = x * 6364136223846793005ULL + 1442695040888963407ULL; c = static_cast<unsigned char>(x >> 56); }
        if (mode == 1) c = 0; else if (mode == 2) c = 255; else if (mode == 3) c = static_cast<unsigned char>("=+/A\r\n"[c % 6]);
        o += static_cast<char>(c);
    }
    return o;
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    if (s.chance(1, 4)) {   // arbitrary text into the decoder
        std::string t;
        size_t n = static_cast<size_t>(s.range(0, s.chance(1, 10) ? 3000 : 60));
        size_t mode = s.weighted({3, 2, 2});
        for (size_t i = 0; i < n; i++) {
            unsigned char b = s.byte();
            if (mode == 1) b = static_cast<unsigned char>(T[b & 63]);
            else if (mode == 2) b = static_cast<unsigned char>("AQ=+/\r\n \0-_z9"[b % 13]);
            t += static_cast<char>(b);
        }
        c.d("decode \"" + pbt::esc(t, 200) + "\"");
        c.label("arbitrary text");
        // exact-size heap copy so that any read outside the text is seen
        std::unique_ptr<std::string> h(new std::string(t));
        h->shrink_to_fit();
        std::string r = Base64::Decode(*h);
        c.check(r.size() <= t.size(), "decode-size", "decoding yields more bytes than it was given");
        c.check(*h == t, "decode-arg", "decoding altered its argument");
        // when the text is canonical base64 with padding, decoding is exact
        bool ok = t.size() % 4 == 0;
        for (char x : t) if (!strchr(T, x) || !x) ok = false;
        if (ok && n) { c.check(srv::b64dec(t) == r, "decode-canonical", "canonical text decoded wrongly"); c.label("canonical text"); }
        c.nontrivial = n > 3;
        return;
    }
    std::string in = gen(s);
    c.d(pbt::strf("encode %zu bytes %016llx ", in.size(), static_cast<unsigned long long>(pbt::hash64(in))) + "\"" + pbt::esc(in, 60) + "\"");
    std::unique_ptr<unsigned char[]> h(new unsigned char[in.size() ? in.size() : 1]);
    memcpy(h.get(), in.data(), in.size());
    std::string e = Base64::Encode(h.get(), in.size());
    std::string a = ref(in, false), b = ref(in, true);
    if (e != a && e != b) {
        size_t i = 0;
        while (i < e.size() && i < a.size() && e[i] == a[i]) i++;
        c.fail("encode", pbt::strf("encoding of %zu bytes differs from standard base64 at character %zu (got %zu characters, expected %zu): got ...", in.size(), i, e.size(), a.size()) + pbt::esc(e.substr(i > 8 ? i - 8 : 0, 30)) + " expected ..." + pbt::esc(a.substr(i > 8 ? i - 8 : 0, 30)));
    }
    std::string d = Base64::Decode(e);
    if (d != in) {
        size_t i = 0;
        while (i < d.size() && i < in.size() && d[i] == in[i]) i++;
        c.fail("roundtrip", pbt::strf("decoding the encoder's output gives %zu of %zu bytes, first difference at %zu", d.size(), in.size(), i));
    }
    c.label(in.size() % 3 ? "padded" : "unpadded");
    if (in.size() >= 49150) c.label("output line break");
    if (in.empty()) c.label("empty");
    c.nontrivial = in.size() > 2;
}
namespace pbt {
Property property{"C20", "Byte strings of 0..40, ..3000 and around multiples of 49152 bytes (the encoder's line-break size) against an RFC 4648 reference and through the decoder; a quarter of the cases decode arbitrary text. Non-trivial: more than one group.", run, 80000, 800000};
}
