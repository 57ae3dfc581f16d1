#include <cstring>
#include <memory>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "engine.h"
#include "model.h"
#include "tables.h"
#include "src/attachment.h"
#include "src/cpp/attachment.hpp"
namespace J = jed_utils;

static void check_type(pbt::Ctx &c, const std::string &path, const std::string &base) {
    std::string want;
    size_t dot = base.rfind('.');
    if (dot != std::string::npos) {
        std::string e = model::lower(base.substr(dot + 1));
        for (auto &k : kMime) if (k.first == e) want = k.second;
    }
    J::Attachment a(path.c_str(), "x.bin");
    c.check(a.getMimeType() == want, "type", "type of \"" + pbt::esc(path) + "\" is \"" + pbt::esc(a.getMimeType()) + "\", expected \"" + want + "\"");
    J::cpp::Attachment b(path, "y.png");
    c.check(b.getMimeType() == want, "type-cpp", "cpp type of \"" + pbt::esc(path) + "\" is \"" + b.getMimeType() + "\", expected \"" + want + "\"");
    c.label(want.empty() ? "unknown type" : "known type");
}
static std::string flip(pbt::Src &s, std::string e) {
    for (char &x : e) if (s.chance(1, 2) && x >= 'a' && x <= 'z') x = static_cast<char>(x - 32);
    return e;
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    size_t kind = s.weighted({5, 5, 4});
    if (kind == 0) {   // names only
        std::string base, dir;
        for (int64_t k = s.range(0, 2); k > 0; k--) dir += "/" + model::gen_word(s, 5) + (s.chance(1, 2) ? "." + kMime[s.index(kMime.size())].first : "");
        const std::string &ext = kMime[s.index(kMime.size())].first;
        switch (s.weighted({6, 2, 2, 2, 2, 1, 2, 1})) {
        case 0: base = model::gen_word(s, 6) + "." + flip(s, ext); break;
        case 1: base = flip(s, ext); break;                                   // no dot at all
        case 2: base = model::gen_word(s, 6) + "." + ext + "." + model::gen_word(s, 3); break;
        case 3: base = model::gen_word(s, 6) + "." + flip(s, ext) + (s.chance(1, 2) ? " " : "x"); break;
        case 4: base = model::gen_word(s, 3) + ".." + flip(s, ext); break;
        case 5: base = "." + flip(s, ext); break;
        case 6: base = model::gen_word(s, 6) + "." + (ext.size() > 1 ? ext.substr(s.chance(1, 2) ? 1 : 0, ext.size() - 1) : "q"); break;
        default: base = model::gen_word(s, 6) + "."; break;
        }
        std::string path = dir.empty() ? base : dir + "/" + base;
        c.d("name " + path);
        check_type(c, path, base);
        c.nontrivial = true;
        return;
    }
    static int serial = 0;
    std::string base = "c" + std::to_string(serial++ % 16) + "." + kMime[s.index(kMime.size())].first;
    std::string path = c.scratch + "/" + base;
    if (kind == 1) {   // readable files
        unlink(path.c_str());
        std::string content;
        switch (s.weighted({3, 3, 2})) {
        case 0: content = model::gen_bytes(s, 64, true); break;
        case 1: content = model::gen_bytes(s, 5000, true); break;
        default: {
            size_t n = static_cast<size_t>(49152 * s.range(1, 3) + s.range(-4, 4));
            uint64_t x = s.bits(8);
            for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; content += static_cast<char>(x >> 56); }
        }
        }
        model::write_file(path, content);
        bool link = s.chance(1, 8);
        if (link) { std::string l = path + ".lnk.txt"; unlink(l.c_str()); if (symlink(path.c_str(), l.c_str()) == 0) { path = l; base += ".lnk.txt"; } }
        if (s.chance(1, 6)) syscall(SYS_chmod, path.c_str(), 0400);
        c.d(pbt::strf("file of %zu bytes %016llx%s", content.size(), static_cast<unsigned long long>(pbt::hash64(content)), link ? " by symlink" : ""));
        J::Attachment a(path.c_str(), "name");
        J::cpp::Attachment b(path, "name");
        int rounds = static_cast<int>(s.range(1, 3));
        for (int r = 0; r < rounds; r++) {
            std::unique_ptr<const char[]> g(a.getBase64EncodedFile());
            c.check(g != nullptr, "null", "no content for a readable file of " + std::to_string(content.size()) + " bytes");
            bool ok = true;
            std::string dec = srv::b64dec(g.get(), &ok);
            c.check(ok && dec == content, "content", pbt::strf("encoded content decodes to %zu bytes, file has %zu (clean base64: %d)", dec.size(), content.size(), ok));
            c.check(b.getBase64EncodedFile() == g.get(), "cpp", "cpp class returns other content");
            if (r + 1 < rounds) {
                content = model::gen_bytes(s, 3000, true);
                syscall(SYS_chmod, path.c_str(), 0600);
                model::write_file(path, content);
                c.d(pbt::strf("rewritten to %zu bytes %016llx", content.size(), static_cast<unsigned long long>(pbt::hash64(content))));
                c.label("rewritten");
            }
        }
        check_type(c, path, base);
        if (content.empty()) c.label("empty file");
        c.label("readable file");
        unlink(path.c_str());
        unlink((c.scratch + "/" + base).c_str());
        c.nontrivial = true;
        return;
    }
    std::string why;
    unlink(path.c_str());
    std::string extra;
    switch (s.weighted({2, 4, 2, 2, 1, 1, 1})) {
    case 0: why = "missing"; break;
    case 1: why = "directory"; path = c.scratch + "/d" + std::to_string(s.range(0, 3)) + ".png"; base = path.substr(path.rfind('/') + 1); mkdir(path.c_str(), 0700); break;
    case 2: why = "dangling symlink"; if (symlink("/nonexistent/target", path.c_str())) {} break;
    case 3: why = "symlink loop"; if (symlink(path.c_str(), path.c_str())) {} break;
    case 4: why = "name too long"; base = std::string(300, 'n') + ".png"; path = c.scratch + "/" + base; break;
    case 5: why = "below a file"; model::write_file(path, "x"); extra = path; path += "/inner.txt"; base = "inner.txt"; break;
    default: why = "directory with slash"; path = c.scratch + "/"; base = ""; break;
    }
    c.d(why);
    {
        int64_t before = sim::heap().bytes;
        J::Attachment a(path.c_str(), "name");
        J::cpp::Attachment b(path, "name");
        try {
            const char *g = a.getBase64EncodedFile();
            c.check(g == nullptr, "content-for-unreadable", "content returned for a path that can not be read (" + why + "): " + (g ? pbt::esc(g, 40) : ""));
            std::string t = b.getBase64EncodedFile();
            c.check(t.empty(), "content-for-unreadable-cpp", "cpp content returned for a path that can not be read (" + why + ")");
        } catch (const std::exception &e) {
            c.fail("throws", std::string("asking for the content of an unreadable path (") + why + ") throws " + e.what());
        }
        (void)before;
        check_type(c, path, base);
    }
    unlink(path.c_str());
    if (why == "directory") rmdir(path.c_str());
    if (!extra.empty()) unlink(extra.c_str());
    c.label("unreadable: " + why);
    c.nontrivial = true;
}
namespace pbt {
Property property{"C21", "Attachment paths: names built from the documented extensions with case changes, extra dots, directories containing dots and no dot at all; readable files (0 bytes to beyond three encoder lines, symlinks, rewritten between calls); unreadable paths (missing, directory, dangling and looping symlinks, over-long, below a file). Every case is non-trivial.", run, 110000, 1000000};
}
