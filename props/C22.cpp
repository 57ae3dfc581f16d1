#include <stdexcept>
#include <string>
#include <vector>
#include "engine.h"
#include "model.h"
#include "src/messageaddress.h"
#include "src/cpp/messageaddress.hpp"
namespace J = jed_utils;

static bool dom(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-'; }
static bool loc(char c) { return dom(c) || c == '_'; }
static bool let(char c) { return c >= 'a' && c <= 'z'; }
static bool nl(char c) { return c == '\n' || c == '\r'; }
// Linear-time reference for the documented address form.
static bool valid(const std::string &in) {
    std::string s = model::lower(in);
    size_t n = s.size();
    // prefix[i]: s[0..i) is a local part
    std::vector<char> prefix(n + 1, 0);
    bool alive = n && loc(s[0]);
    for (size_t i = 0; i < n && alive; i++) {
        if (nl(s[i])) { alive = false; break; }
        if (!loc(s[i]) && i && !loc(s[i - 1])) { alive = false; break; }
        if (loc(s[i])) prefix[i + 1] = 1;
    }
    for (size_t k = 2; k <= 4; k++) {
        if (n < k + 1) continue;
        bool ok = true;
        for (size_t i = n - k; i < n; i++) if (!let(s[i])) ok = false;
        size_t x = n - k - 1;                    // the separating character
        if (!ok || nl(s[x]) || x == 0 || !dom(s[x - 1])) continue;
        // walk the domain part backwards from x-1; every start b with a valid body and '@' before it counts
        for (size_t b = x - 1;; b--) {
            if (nl(s[b])) break;
            if (!dom(s[b]) && b + 1 < x && !dom(s[b + 1])) break;
            if (dom(s[b]) && b > 0 && s[b - 1] == '@' && prefix[b - 1]) return true;
            if (b == 0) break;
        }
    }
    return false;
}
static std::string gen(pbt::Src &s) {
    static const std::string W("abz09_-AZ"), X(".+!@ \t\r\n\"<>()'\\,;:%/=#\x7f\x80\xe9\xff\x01", 28);
    auto ch = [&](bool other) { return other ? X[s.index(X.size())] : W[s.index(W.size())]; };
    std::string o;
    switch (s.weighted({5, 4, 2, 2, 1})) {
    case 0: {   // well formed, then perhaps damaged
        size_t parts = static_cast<size_t>(s.range(1, 4));
        for (size_t i = 0; i < parts; i++) { if (i) o += s.chance(1, 3) ? X[s.index(X.size())] : '.'; for (int64_t k = s.range(1, 5); k > 0; k--) o += ch(false); }
        o += '@';
        parts = static_cast<size_t>(s.range(1, 3));
        for (size_t i = 0; i < parts; i++) { if (i) o += s.chance(1, 4) ? X[s.index(X.size())] : '.'; for (int64_t k = s.range(1, 5); k > 0; k--) o += s.chance(1, 8) ? ch(false) : "abz09-Z"[s.index(7)]; }
        o += s.chance(1, 6) ? X[s.index(X.size())] : '.';
        for (int64_t k = s.range(1, 5); k > 0; k--) o += s.chance(1, 10) ? ch(false) : "azQ"[s.index(3)];
        for (int64_t k = s.chance(1, 2) ? s.range(0, 3) : 0; k > 0 && !o.empty(); k--) {
            size_t i = s.index(o.size());
            switch (s.index(4)) {
            case 0: o.erase(i, 1); break;
            case 1: o.insert(i, 1, ch(s.chance(1, 2))); break;
            case 2: o[i] = ch(s.chance(1, 2)); break;
            default: o.insert(i, 1, '@');
            }
        }
        break;
    }
    case 1: for (int64_t k = s.range(0, 14); k > 0; k--) { size_t w = s.weighted({6, 2, 3}); o += w == 0 ? ch(false) : w == 1 ? ch(true) : (s.chance(1, 2) ? '@' : '.'); } break;
    case 2: o = model::gen_bytes(s, 60, false); break;
    case 3: {   // repetition: backtracking and recursion bait
        size_t n = static_cast<size_t>(s.range(20, 400));
        std::string unit = std::string(static_cast<size_t>(s.range(1, 3)), ch(false)) + (s.chance(1, 2) ? "" : std::string(1, ch(true)));
        std::string l, d;
        for (size_t i = 0; i < n; i++) l += unit;
        std::string unit2 = std::string(static_cast<size_t>(s.range(1, 3)), ch(false)) + (s.chance(1, 2) ? "" : ".");
        for (size_t i = 0; i < n; i++) d += unit2;
        switch (s.weighted({2, 2, 2, 1})) {
        case 0: o = l + "a@" + d + "a.com"; break;
        case 1: o = l + (s.chance(1, 2) ? "!!" : ""); break;
        case 2: o = "a@" + d + (s.chance(1, 2) ? "@@" : "..com"); break;
        default: o = l + "a@" + d + "!!.com";
        }
        break;
    }
    default: {
        size_t n = static_cast<size_t>(s.range(10000, 400000));
        char a = ch(false);
        o = s.chance(1, 2) ? std::string(n, a) + "@example.com" : "a@" + std::string(n, 'b') + ".com";
        if (s.chance(1, 3)) { std::string d; while (d.size() < n) d += "a."; o = d + "x@" + d + "com"; }
        if (s.chance(1, 3)) { std::string d; while (d.size() < n) d += "a@"; o = d + "b.com"; }
        if (s.chance(1, 3)) o += s.chance(1, 2) ? "!!" : "\n";
    }
    }
    for (char &c : o) if (!c) c = 1;
    return o;
}
template <class F> static int verdict(F f) {
    try { f(); return 1; }
    catch (const std::invalid_argument &) { return 0; }
    catch (...) { return -1; }
}
static bool decide(pbt::Ctx &c, const std::string &in, const char *what) {
    bool want = valid(in);
    int a = verdict([&] { J::MessageAddress m(in.c_str(), "n"); c.check(in == m.getEmailAddress(), "kept", "the accepted address is not the one given"); });
    c.check(a == (want ? 1 : 0), want ? "refused-valid" : a < 0 ? "other-exception" : "accepted-invalid",
            std::string(what) + " is " + (want ? "valid" : "invalid") + " but the constructor " + (a == 1 ? "accepted it" : a == 0 ? "refused it" : "threw something else"));
    int b = verdict([&] { J::cpp::MessageAddress m(in, "n"); });
    c.check(b == a, "cpp", "the C++ class decides differently");
    int a2 = verdict([&] { J::MessageAddress m(in.c_str(), "other name"); });
    c.check(a2 == a, "repeat", "a second decision differs");
    return want;
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    std::string in = gen(s);
    c.d("\"" + pbt::esc(in, 200) + "\"" + (in.size() > 200 ? pbt::strf(" %016llx", static_cast<unsigned long long>(pbt::hash64(in))) : ""));
    bool want = decide(c, in, "address");
    c.label(want ? "valid" : "invalid");
    if (in.size() > 5000) c.label(want ? "long valid" : "long invalid");
    c.nontrivial = in.find('@') != std::string::npos && in.size() > 4;
    if (!in.empty() && in.size() < 5000 && s.chance(1, 3)) {   // then addresses that resemble it: no decision may depend on an earlier one
        for (int64_t k = s.range(1, 3); k > 0; k--) {
            std::string o = in;
            static const std::string odd(".@-_ !a9Z\n", 10);
            size_t i = s.chance(1, 2) ? o.size() - 1 - s.index(std::min<size_t>(o.size(), 6)) : s.index(o.size());
            switch (s.weighted({3, 2, 2, 1, 1})) {
            case 0: o[i] = odd[s.index(odd.size())]; break;
            case 1: o.erase(i, 1); break;
            case 2: o.insert(i, 1, odd[s.index(odd.size())]); break;
            case 3: for (char &x : o) if (x >= 'a' && x <= 'z') x = static_cast<char>(x - 32); break;
            default: o += s.chance(1, 2) ? " " : ".";
            }
            c.d(" then \"" + pbt::esc(o, 200) + "\"");
            bool w = decide(c, o, "the next address");
            if (w != want) c.label("resembling address with the other answer");
            if (s.chance(1, 2)) decide(c, in, "the first address, seen again,");
        }
    }
}
namespace pbt {
Property property{"C22", "Address strings: well-formed ones with 0..3 character edits, random strings over word characters, separators, @, white space, control and high bytes, arbitrary bytes, repetition bait up to 400 kB; in one case of three followed by up to three addresses that resemble it by one edit; decided by a linear-time reference. A case that uses more than 10 s of CPU fails. Non-trivial: contains @ and is longer than 4.", run, 70000, 700000, 10};
}
