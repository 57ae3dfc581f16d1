#include <string>
#include "engine.h"
#include "model.h"
#include "src/stringutils.h"
using jed_utils::StringUtils;

static bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string gen(pbt::Src &s) {
    static const std::string pool(" \t\n\v\f\rAZaz@[`{\x80\xa0\xff\x85\0x", 21);
    std::string o;
    size_t n;
    switch (s.weighted({6, 3, 1})) {
    case 0: n = static_cast<size_t>(s.range(0, 12)); break;
    case 1: n = static_cast<size_t>(s.range(0, 200)); break;
    default: n = static_cast<size_t>(s.range(0, 5000));
    }
    size_t mode = s.weighted({4, 3, 1});
    for (size_t i = 0; i < n; i++) {
        if (mode == 0) o += pool[s.index(pool.size())];
        else if (mode == 1) o += static_cast<char>(s.byte());
        else o += " \t\n\v\f\r"[s.index(6)];
    }
    // white space around something
    if (s.chance(1, 2)) {
        std::string l, r;
        for (int64_t k = s.range(0, 6); k > 0; k--) l += " \t\n\v\f\r"[s.index(6)];
        for (int64_t k = s.range(0, 6); k > 0; k--) r += " \t\n\v\f\r"[s.index(6)];
        o = l + o + r;
    }
    return o;
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    const std::string in = gen(s);
    const std::string keep = in;
    c.d("\"" + pbt::esc(in, 300) + "\"");
    size_t a = 0, b = in.size();
    while (a < in.size() && space(static_cast<unsigned char>(in[a]))) a++;
    while (b > 0 && space(static_cast<unsigned char>(in[b - 1]))) b--;
    std::string l = in.substr(a), r = in.substr(0, b), t = a >= b ? std::string() : in.substr(a, b - a), lo = in, up = in;
    for (char &x : lo) if (x >= 'A' && x <= 'Z') x = static_cast<char>(x + 32);
    for (char &x : up) if (x >= 'a' && x <= 'z') x = static_cast<char>(x - 32);
    auto eq = [&](const char *f, const std::string &got, const std::string &want) {
        c.check(got == want, f, std::string(f) + "(\"" + pbt::esc(in, 200) + "\") = \"" + pbt::esc(got, 200) + "\", expected \"" + pbt::esc(want, 200) + "\"");
        c.check(in == keep, std::string(f) + "-argument", std::string(f) + " altered its argument");
    };
    std::string gl = StringUtils::trimLeft(in), gr = StringUtils::trimRight(in), gt = StringUtils::trim(in), gd = StringUtils::toLower(in), gu = StringUtils::toUpper(in);
    eq("trimLeft", gl, l); eq("trimRight", gr, r); eq("trim", gt, t); eq("toLower", gd, lo); eq("toUpper", gu, up);
    // idempotence and the argument aliasing its own result
    c.check(StringUtils::trim(gt) == gt && StringUtils::trimLeft(gl) == gl && StringUtils::trimRight(gr) == gr, "idempotent", "trimming twice differs");
    c.check(StringUtils::toLower(gd) == gd && StringUtils::toUpper(gu) == gu, "idempotent-case", "case conversion twice differs");
    std::string x = in; x = StringUtils::trim(x); c.check(x == t, "alias", "assigning the result to the argument differs");
    bool high = false;
    for (unsigned char ch : in) if (ch > 127 || !ch) high = true;
    if (a > 0 && a < in.size()) c.label("leading white space");
    if (b > 0 && b < in.size()) c.label("trailing white space");
    if (a >= b && !in.empty()) c.label("only white space");
    if (high) c.label("NUL or above 127");
    if (lo != in || up != in) c.label("letters");
    c.nontrivial = l != in || r != in || (high && lo != in);
}
namespace pbt {
Property property{"C27", "Random byte strings biased towards white space, letters, ASCII boundary characters, NUL and bytes above 127; non-trivial: something to trim, or letters next to bytes outside ASCII.", run, 400000, 4000000};
}
