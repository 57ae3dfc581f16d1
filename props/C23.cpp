#include <climits>
#include <sys/mman.h>
#include <cstring>
#include <memory>
#include <string>
#include "engine.h"
#include "model.h"
#include "tables.h"
#include "src/errorresolver.h"
#include "src/smtpclient.h"
#include "src/forcedsecuresmtpclient.h"
#include "src/opportunisticsecuresmtpclient.h"
#include "src/cpp/smtpclient.hpp"
#include "src/cpp/forcedsecuresmtpclient.hpp"
#include "src/cpp/opportunisticsecuresmtpclient.hpp"
namespace J = jed_utils;

static std::string want(int code) {
    for (auto &m : kMessages) if (m.first == code) return m.second;
    return kUnknownMessage;
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    int code;
    bool listed = false;
    switch (s.weighted({5, 3, 1, 1})) {
    case 0: code = kMessages[s.index(kMessages.size())].first; break;
    case 1: code = static_cast<int>(s.range(-130, 600)); break;
    case 2: code = static_cast<int>(static_cast<uint32_t>(s.bits(4))); break;
    default: { static const std::vector<int> v{INT_MIN, INT_MAX, 0, INT_MIN + 1, -100, 250, 354, 220}; code = s.pick(v); }
    }
    for (auto &m : kMessages) listed = listed || m.first == code;
    std::string w = want(code);
    c.d("code " + std::to_string(code));
    auto eq = [&](const char *how, const std::string &got) { c.check(got == w, "text", std::string(how) + " for code " + std::to_string(code) + " is \"" + pbt::esc(got) + "\", documented: \"" + w + "\""); };
    J::ErrorResolver r(code);
    eq("ErrorResolver", r.getErrorMessage());
    c.check(r.getErrorCode() == code, "code", "ErrorResolver::getErrorCode returns " + std::to_string(r.getErrorCode()));
    int which = static_cast<int>(s.range(0, 2));
    std::unique_ptr<char[]> p(which == 0 ? J::SmtpClient::getErrorMessage(code) : which == 1 ? J::OpportunisticSecureSMTPClient::getErrorMessage(code) : J::ForcedSecureSMTPClient::getErrorMessage(code));
    eq("getErrorMessage", p.get());
    eq("cpp getErrorMessage", which == 0 ? J::cpp::SmtpClient::getErrorMessage(code) : which == 1 ? J::cpp::OpportunisticSecureSMTPClient::getErrorMessage(code) : J::cpp::ForcedSecureSMTPClient::getErrorMessage(code));
    std::string out = "previous content";
    int rc = which == 0 ? J::cpp::SmtpClient::getErrorMessage_r(code, out) : which == 1 ? J::cpp::OpportunisticSecureSMTPClient::getErrorMessage_r(code, out) : J::cpp::ForcedSecureSMTPClient::getErrorMessage_r(code, out);
    eq("cpp getErrorMessage_r", out);
    c.check(rc == 0, "cpp-rc", "cpp getErrorMessage_r returns " + std::to_string(rc));
    // caller's buffer
    size_t n = 0;
    switch (s.weighted({2, 2, 4})) {
    case 0: n = static_cast<size_t>(s.range(0, 300)); break;
    case 1: n = static_cast<size_t>(s.range(0, 3)); break;
    default: n = static_cast<size_t>(std::max<int64_t>(0, static_cast<int64_t>(w.size()) + s.range(-2, 3)));
    }
    bool null = s.chance(1, 10);
    c.d(null ? "null buffer" : "buffer of " + std::to_string(n));
    if (null) {
        int q = J::SmtpClient::getErrorMessage_r(code, nullptr, n);
        c.check(q == -1, "null", "null buffer yields " + std::to_string(q));
        c.label("null buffer");
    } else {
        // the heap block is larger: bytes behind the given length must keep their value; exact blocks let ASan see reads too
        bool exact = s.chance(1, 2);
        size_t cap = exact ? n : n + 64;
        std::unique_ptr<char[]> b(new char[cap ? cap : 1]);
        memset(b.get(), 0x5a, cap ? cap : 1);
        int q = J::SmtpClient::getErrorMessage_r(code, b.get(), n);
        for (size_t i = n; i < cap; i++) c.check(b[i] == 0x5a, "overrun", "byte " + std::to_string(i) + " behind a buffer of " + std::to_string(n) + " was written");
        if (n == 0) {
            c.check(q == -1, "empty", "empty buffer yields " + std::to_string(q));
            c.check(exact || b[0] == 0x5a, "overrun", "empty buffer was written");
        } else if (w.size() <= n - 1) {
            c.check(memchr(b.get(), 0, n) && w == b.get(), "content", "buffer holds \"" + pbt::esc(std::string(b.get(), strnlen(b.get(), n))) + "\"");
            c.check(q == 0, "rc-fit", "text fitted but " + std::to_string(q) + " was returned");
            if (w.size() == n - 1) c.label("exact fit");
        } else {
            c.check(b[n - 1] == 0 && w.substr(0, n - 1) == b.get(), "content-cut", "cut text is \"" + pbt::esc(std::string(b.get(), strnlen(b.get(), n))) + "\" in a buffer of " + std::to_string(n));
            c.check(q == static_cast<int>(n - 1), "rc-cut", "cut to " + std::to_string(n - 1) + " characters but " + std::to_string(q) + " was returned");
            c.label("cut");
        }
    }
    if (s.chance(1, 20000)) {                              // buffers whose length does not fit an int: only the text is written to them
        const size_t room = (size_t{1} << 33) + 4096;
        void *v = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (v != MAP_FAILED) {
            char *b = static_cast<char *>(v);
            for (size_t big : {size_t{1} << 31, size_t{1} << 32, size_t{1} << 33, size_t{1} << 16, size_t{1} << 8}) for (int d : {-1, 0, 1, 2, 10, 40, 400}) {
                size_t len = big + static_cast<size_t>(static_cast<int64_t>(d));
                memset(b, 0x5a, 4096);
                int q = J::SmtpClient::getErrorMessage_r(code, b, len);
                c.check(q == 0 && memchr(b, 0, 4096) && w == b, "content-large", "in a buffer of " + std::to_string(len) + " characters the text is \"" + pbt::esc(std::string(b, strnlen(b, 300))) + "\" and " + std::to_string(q) + " was returned");
            }
            munmap(v, room);
            c.label("very large buffer");
        }
    }
    c.label(listed ? "listed code" : "unknown code");
    c.nontrivial = true;
}
namespace pbt {
Property property{"C23", "Result codes (listed, near the listed ranges, any int) through every way of asking, with caller buffers sized around the text length; every case is non-trivial (distinct by code and buffer).", run, 600000, 6000000};
}
