#include "model.h"
#include "tables.h"
#include <cstring>
#include <algorithm>
#include <fstream>
#include <type_traits>
#include "src/smtpclient.h"
#include "src/opportunisticsecuresmtpclient.h"
#include "src/forcedsecuresmtpclient.h"
#include "src/plaintextmessage.h"
#include "src/htmlmessage.h"
#include "src/attachment.h"
#include "src/credential.h"
#include "src/cpp/smtpclient.hpp"
#include "src/cpp/opportunisticsecuresmtpclient.hpp"
#include "src/cpp/forcedsecuresmtpclient.hpp"
#include "src/cpp/plaintextmessage.hpp"
#include "src/cpp/htmlmessage.hpp"

namespace J = jed_utils;
namespace P = jed_utils::cpp;

namespace model {
const char *kind_names[3] = {"plain", "opportunistic", "forced"};
const char *api_names[2] = {"C", "C++"};

std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
static bool wsp(char c) { return c == ' ' || c == '\t'; }
std::string trim(const std::string &s) {
    size_t a = 0, b = s.size();
    while (a < b && (wsp(s[a]) || s[a] == '\r' || s[a] == '\n')) a++;
    while (b > a && (wsp(s[b - 1]) || s[b - 1] == '\r' || s[b - 1] == '\n')) b--;
    return s.substr(a, b - a);
}
std::string squash(const std::string &s) {
    std::string o;
    bool sp = false;
    for (char c : s) {
        if (wsp(c)) { sp = !o.empty(); continue; }
        if (sp) o += ' ';
        sp = false;
        o += c;
    }
    return o;
}
std::string canon_breaks(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '\r') { o += "\r\n"; if (i + 1 < s.size() && s[i + 1] == '\n') i++; }
        else if (s[i] == '\n') o += "\r\n";
        else o += s[i];
    }
    return o;
}
std::vector<std::string> all_rcpts(const Msg &m) {
    std::vector<std::string> v;
    for (auto *l : {&m.to, &m.cc, &m.bcc}) for (auto &a : *l) v.push_back(a.email);
    return v;
}
static std::string show(const std::vector<Addr> &l) {
    std::string o;
    for (auto &a : l) o += (o.empty() ? "" : ",") + (a.name.empty() ? "" : "\"" + pbt::esc(a.name, 120) + "\"") + "<" + pbt::esc(a.email, 80) + ">";
    return o;
}
std::string show(const Msg &m) {
    std::string o = std::string(m.html ? "html" : "plain") + " from=" + show(std::vector<Addr>{m.from}) + " to=" + show(m.to);
    if (!m.cc.empty()) o += " cc=" + show(m.cc);
    if (!m.bcc.empty()) o += " bcc=" + show(m.bcc);
    o += " subject=\"" + pbt::esc(m.subject, 200) + "\" body(" + std::to_string(m.body.size()) + ")=\"" + pbt::esc(m.body, 500) + "\"";
    for (auto &a : m.atts) o += " att{file=" + pbt::esc(a.path.substr(a.path.rfind('/') + 1), 80) + " name=\"" + pbt::esc(a.name, 80) + "\" cid=\"" + pbt::esc(a.cid, 80) + "\" " + std::to_string(a.content.size()) + "B}";
    return o;
}

// ---------------------------------------------------------------------------------------------- generators
static const char ALNUM[] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_-";
std::string gen_word(pbt::Src &s, size_t maxlen) {
    size_t n = static_cast<size_t>(s.range(1, static_cast<int64_t>(maxlen)));
    std::string o;
    for (size_t i = 0; i < n; i++) o += ALNUM[s.index(26 + (i ? 10 : 0))];
    return o;
}
std::string gen_email(pbt::Src &s) {
    static const std::string SEP = ".+.%!/=#$&*?^`{|}~'";
    static const std::vector<std::string> dom{"example.com", "example.org", "example.net", "a.co", "mail.example.com", "x-y.example.info", "sub.sub.example.org", "Example.COM", "EXAMPLE.ORG", "1and1.example.net", "a.b.c.d.e.f.example.com", "xn--bcher-kva.example.com", "localhost.mail", "8.co"};
    std::string l;
    size_t parts = s.weighted({6, 3, 1}) + 1;
    for (size_t i = 0; i < parts; i++) {
        if (i) l += SEP[s.index(s.chance(1, 4) ? SEP.size() : 1)];
        size_t n = static_cast<size_t>(s.range(1, 8));
        for (size_t k = 0; k < n; k++) l += ALNUM[s.index(s.chance(1, 8) ? 64 : 26)];
    }
    if (s.chance(1, 20)) l += std::string(static_cast<size_t>(s.range(50, 300)), 'q');
    std::string d = s.pick(dom);
    if (s.chance(1, 20)) for (int64_t k = s.range(1, 12); k > 0; k--) d = gen_word(s, 20) + "0." + d;
    return l + "@" + d;
}
std::string gen_name(pbt::Src &s, bool wild) {
    std::string o;
    size_t n = s.weighted({3, 4, 4, 2});
    static const std::vector<std::string> specials{",", "\"", "<", ">", "(", ")", "@", ":", ";", "\\", ".", "[", "]", "'", "=", "\xc3\xa9", "\xe6\x97\xa5", "  ", "\t", "&", "<x@example.com>", "\" <x@example.com>, \"", "\\\"", "(comment)"};
    for (size_t i = 0; i < n; i++) {
        if (i) o += ' ';
        o += gen_word(s, 8);
        if (wild && s.chance(2, 3)) { o += s.pick(specials); if (s.chance(1, 3)) o += s.pick(specials); }
    }
    if (wild && n == 0 && s.chance(1, 3)) o = s.pick(specials);
    if (s.chance(1, 40)) { o += " "; for (int64_t k = s.range(5, 60); k > 0; k--) o += gen_word(s, 14) + (s.chance(1, 3) ? "" : wild && s.chance(1, 5) ? ". " : " "); }
    return o;
}
std::string gen_subject(pbt::Src &s, bool wild) {
    std::string o;
    size_t n = s.weighted({1, 3, 3, 2, 1});
    for (size_t i = 0; i < n; i++) {
        if (i) o += ' ';
        o += gen_word(s, 10);
        if (wild && s.chance(1, 2)) { static const std::vector<std::string> w{":", ".", "\xc3\xa9\xc3\xa0", "<", ">", "\"", ",", "From: x@example.com", "--sep", "=", "\t", "?", "%s%n", ".", "  ", "   ", "\\", "\\r\\n", "=?UTF-8?Q?x=3D?=", "\x0b", "\xff", "\xef\xbb\xbf"}; o += s.pick(w); }
    }
    if (s.chance(1, 30)) o += std::string(static_cast<size_t>(s.range(300, 3000)), 's');
    return o;
}
std::string gen_bytes(pbt::Src &s, size_t max, bool nul) {
    size_t n;
    switch (s.weighted({4, 4, 2})) {
    case 0: n = static_cast<size_t>(s.range(0, std::min<int64_t>(64, static_cast<int64_t>(max)))); break;
    case 1: n = static_cast<size_t>(s.range(0, std::min<int64_t>(2000, static_cast<int64_t>(max)))); break;
    default: n = static_cast<size_t>(s.range(0, static_cast<int64_t>(max)));
    }
    std::string o;
    o.reserve(n);
    size_t mode = s.weighted({3, 2, 2, 1});
    uint64_t x = s.bits(4) | 1;
    while (o.size() < n) {
        unsigned char c;
        if (n > 4096) {            // long strings come from a small seed so that they stay cheap to record and shrink
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            c = static_cast<unsigned char>(x >> 56);
        } else c = s.byte();
        if (mode == 1) c = static_cast<unsigned char>('a' + c % 26);
        if (mode == 2) c = c % 4 == 0 ? '\n' : c % 4 == 1 ? '\r' : c % 4 == 2 ? '.' : c;
        if (mode == 3) c = static_cast<unsigned char>(c | 0x80);
        if (!c && !nul) c = 1;
        o += static_cast<char>(c);
    }
    if (max >= 16 && s.chance(1, 10)) {   // beginnings and ends that some programs treat specially
        static const std::vector<std::string> sign{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1f\x8b\x08", "PK\x03\x04", "%PDF-1.4", "\x89PNG\r\n\x1a\n", "GIF89a", "\xff\xd8\xff", "#!/bin/sh\n", "<?xml ", "<!DOCTYPE html>", "begin 644 x\n", "-----BEGIN ", "From ", "=?utf-8?", "data:;base64,", "{\\rtf", "\n", "\r\n", " ", "\t"};
        static const std::vector<std::string> tail{"\x1a", "\n", "\r\n", "\r", " ", "\n\n", "=", "==", "."};
        if (s.chance(2, 3)) o = s.pick(sign) + o;
        if (s.chance(1, 3)) o += s.pick(tail);
        if (nul && s.chance(1, 4)) o = std::string(1, '\0') + o + std::string(1, '\0');
        if (o.size() > max) o.resize(max);
    }
    return o;
}
std::string gen_body(pbt::Src &s, size_t max, bool wild) {
    std::string o;
    size_t pieces = static_cast<size_t>(s.range(0, 12));
    static const std::vector<std::string> frag{
        ".", "..", ".\r\n", "\r\n.\r\n", "\n.\n", "\r.\r", "\r\n.", "\n.\r\n", "\r\n.\n", "..\r\n", "\r\n..\r\n", ".hidden\r\n",
        "--sep\r\n", "\r\n--sep\r\n", "\r\n--sep--\r\n", "--sep--", "\n--sep\n", "\r\n--sepx\r\n", "\r\n-- \r\n",
        "QUIT\r\n", "\r\nRSET\r\n", "MAIL FROM: <x@example.com>\r\n", "\r\n", "\n", "\r", "\r\r\n", "\n\r", "\r\n\r\n", "Subject: x\r\n",
        "Content-Type: text/html\r\n\r\n", " ", "\t", "\xc3\xa9", "\xff\xfe", "\x01", "\x1a", "250 ok\r\n", "<b>&amp;</b>", "%s%n%d",
        " \r\n", "\t\r\n", "  ", "\r\n ", "\r\n\t", "From ", "\r\nFrom ", "=\r\n", "=20", "=2E", "\xef\xbb\xbf", "\xe2\x80\xa8", "\xc0\x8a", "\x85", "\x0b", "\x0c", "\x1b", "\x7f", "\\r\\n", "\\n", "%0d%0a", "DATA\r\n", "STARTTLS\r\n", "RCPT TO: <y@example.com>\r\n",
        "--sep1", "\r\n--sep1--\r\n", "--se", "\nc: ", "\ns: 250 ", "***", "\"", "'", "`", "~", "<html><body>", "</body></html>", "Bcc: z@example.com\r\n", "X", "0"};
    static const std::vector<std::string> tame{"\r\n", "Hello world.\r\n", "A line of text", "\r\n\r\n", "\xc3\xa9t\xc3\xa9 ", "<p>para</p>\r\n"};
    for (size_t i = 0; i < pieces && o.size() < max; i++) {
        switch (s.weighted(wild ? std::vector<unsigned>{6, 4, 2, 2, 2} : std::vector<unsigned>{4, 8, 0, 1, 0})) {
        case 0: o += wild ? s.pick(frag) : s.pick(tame); break;
        case 1: o += gen_word(s, 30); o += s.chance(1, 2) ? "\r\n" : " "; break;
        case 2: { std::string b = gen_bytes(s, 60, false); o += b; break; }
        case 3: {   // reach towards the sizes in which the client may write
            static const std::vector<int64_t> marks{512, 1024, 1536, 2048, 4096, 8192, 16384, 65536};
            int64_t target = s.pick(marks) + s.range(-70, 20);
            if (target <= static_cast<int64_t>(max) && target > static_cast<int64_t>(o.size())) {
                bool lines = s.chance(1, 2);
                while (static_cast<int64_t>(o.size()) < target) o += lines && o.size() % 60 == 59 ? '\n' : 'x';
            }
            break;
        }
        default: { std::string f = s.pick(frag); size_t n = static_cast<size_t>(s.range(1, 40)); for (size_t k = 0; k < n; k++) o += f; }
        }
    }
    if (o.size() > max) o.resize(max);
    for (char &c : o) if (!c) c = 1;
    return o;
}
void write_file(const std::string &path, const std::string &content) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(content.data(), static_cast<std::streamsize>(content.size()));
}
static std::vector<Addr> gen_list(pbt::Src &s, size_t lo, size_t hi, bool wild, bool big) {
    std::vector<Addr> v;
    size_t n = static_cast<size_t>(s.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
    if (big && s.chance(1, 40)) {      // sizes around the limits servers and fixed-size tables have
        static const std::vector<int64_t> marks{16, 32, 50, 64, 100, 128, 200, 256, 300, 512, 1000, 1024};
        n = static_cast<size_t>(std::max<int64_t>(1, s.pick(marks) + s.range(-2, 2)));
        for (size_t i = 0; i < n; i++) v.push_back(Addr{i % 3 ? "" : "N" + std::to_string(i), "u" + std::to_string(i) + "@example.com"});
        return v;
    }
    for (size_t i = 0; i < n; i++) {
        if (!v.empty() && s.chance(1, 6)) { v.push_back(v[s.index(v.size())]); continue; }   // duplicates are legal
        Addr a; a.name = gen_name(s, wild); a.email = gen_email(s);
        v.push_back(a);
    }
    return v;
}
// Fields that are related to one another: independent draws practically never produce a display name that is the
// address, a recipient that is the sender, one person in two lists, a subject that is the body...
static void relate(pbt::Src &s, Msg &m) {
    std::vector<Addr *> all{&m.from};
    for (auto *l : {&m.to, &m.cc, &m.bcc}) for (auto &a : *l) all.push_back(&a);
    size_t n = s.weighted({5, 5, 3, 1});
    for (size_t i = 0; i < n; i++) {
        Addr &a = *all[s.index(all.size())], &b = *all[s.index(all.size())];
        switch (s.index(14)) {
        case 0: a.name = a.email; break;
        case 1: a.name = a.email.substr(0, a.email.find('@')); break;
        case 2: a.name = "<" + a.email + ">"; break;
        case 3: a.name = b.email; break;
        case 4: a.name = b.name; break;
        case 5: a.email = b.email; break;
        case 6: { Addr x = b; a = x; break; }
        case 7: for (auto *x : all) x->name.clear(); break;
        case 8: for (auto *x : all) x->name = m.from.name; break;
        case 9: a.name = a.email.substr(a.email.find('@') + 1); break;
        case 10: m.subject = a.email; break;
        case 11: m.body = m.subject; break;
        case 12: m.subject = a.name; break;
        default: { std::string e = a.email; size_t at = e.find('@'); b.email = (s.chance(1, 2) ? e.substr(0, at) : lower(e.substr(0, at))) + (s.chance(1, 2) ? "@example.org" : e.substr(at)); }
        }
    }
}
static void relate_atts(pbt::Src &s, Msg &m) {
    if (m.atts.empty() || s.chance(2, 3)) return;
    Att &a = m.atts[s.index(m.atts.size())], &b = m.atts[s.index(m.atts.size())];
    std::string base = a.path.substr(a.path.rfind('/') + 1);
    switch (s.index(8)) {
    case 0: a.name = base; break;
    case 1: a.cid = base; break;
    case 2: a.name = b.name; break;
    case 3: a.cid = b.cid; break;
    case 4: { Att x = b; a = x; break; }
    case 5: a.content = m.body; write_file(a.path, a.content); for (auto &x : m.atts) if (x.path == a.path) x.content = a.content; break;
    case 6: a.cid = m.from.email; break;
    default: a.name = a.cid = base;
    }
}
std::string odd_file_name(pbt::Src &s) {
    static const std::vector<std::string> odd{"in/out.txt", "../up.png", "/etc/name", ".hidden", "end.", "no extension", "a.tar.gz", "semi;colon", "a=b", "it's", "50%", "x%20y", "(1)", "a,b", "r\xc3\xa9sum\xc3\xa9.pdf", "a:b", "<x>", "$HOME", "~", "-", ".", "..", "UPPER.TXT", "trailing.txt.", "a@b.com", "*", "?", "name=x", "tab\tname"};
    std::string r = s.pick(odd);
    if (s.chance(1, 6)) r += gen_word(s, 200);
    return r;
}
std::string odd_content_id(pbt::Src &s) {
    static const std::vector<std::string> odd{"image001.png@01D4", "A.B.C", "$1", "50%", "a+b=c", "0", "x/y", "UPPER@EXAMPLE.COM", "cid:1", "{guid-12}", "a_b-c", "."};
    std::string r = s.pick(odd);
    if (s.chance(1, 6)) r += gen_word(s, 300);
    return r;
}
Msg gen_msg(pbt::Src &s, pbt::Ctx &c, const MsgOpts &o) {
    Msg m;
    m.html = s.chance(1, 2);
    m.from.name = gen_name(s, o.wild_names);
    m.from.email = gen_email(s);
    size_t most = o.max_rcpt > 1 && o.max_rcpt < 24 && s.chance(1, 16) ? 24 : o.max_rcpt;
    m.to = gen_list(s, o.allow_no_to && s.chance(1, 10) ? 0 : 1, most, o.wild_names, o.big_lists);
    if (s.chance(1, 2)) m.cc = gen_list(s, 0, most, o.wild_names, o.big_lists);
    if (s.chance(1, 2)) m.bcc = gen_list(s, m.to.empty() && m.cc.empty() ? 1 : 0, most, o.wild_names, o.big_lists);
    if (m.to.empty() && m.cc.empty() && m.bcc.empty()) m.to.push_back(Addr{"", "x@example.com"});
    m.subject = gen_subject(s, o.wild_names);
    m.body = gen_body(s, o.max_body, o.wild_body);
    relate(s, m);
    m.single_ctor = m.to.size() == 1 && m.cc.size() <= 1 && m.bcc.size() <= 1 && s.chance(1, 2);
    if (o.max_atts && s.chance(3, 4)) {
        size_t n = static_cast<size_t>(s.range(1, static_cast<int64_t>(o.max_atts)));
        static const std::vector<std::string> ext{"png", "JPG", "txt", "pdf", "Zip", "xyz", "docx", "gif", "Mp4"};
        static int serial = 0;
        for (size_t i = 0; i < n; i++) {
            Att a;
            auto &e = s.pick(ext);
            a.path = c.scratch + "/f" + std::to_string(serial++ % 64) + "." + e;
            for (auto &k : kMime) if (k.first == lower(e)) a.mime = k.second;
            a.content = gen_bytes(s, o.max_file, true);
            write_file(a.path, a.content);
            size_t w = s.weighted({1, 4, 2});
            if (w == 1) a.name = gen_word(s, 12) + "." + e;
            if (w == 2) { a.name = gen_name(s, o.wild_names); }
            if (s.chance(1, 8)) {
                a.name = odd_file_name(s);
            }
            if (s.chance(1, 2)) a.cid = gen_word(s, 10) + (s.chance(1, 2) ? "@example.com" : "");
            if (s.chance(1, 10)) a.cid = odd_content_id(s);
            m.atts.push_back(a);
        }
        relate_atts(s, m);
    }
    return m;
}
Msg simple_msg() {
    Msg m;
    m.from = Addr{"Sender", "sender@example.com"};
    m.to.push_back(Addr{"Rcpt", "rcpt@example.org"});
    m.subject = "Test";
    m.body = "Hello\r\nWorld";
    return m;
}

// ---------------------------------------------------------------------------------------------- clients
template <class MA, class F> static void build_c(const Msg &m, F f) {
    auto lst = [](const std::vector<Addr> &l) {
        std::vector<J::MessageAddress> v;
        for (auto &a : l) v.emplace_back(a.email.c_str(), a.name.c_str());
        return v;
    };
    std::vector<J::MessageAddress> to = lst(m.to), cc = lst(m.cc), bcc = lst(m.bcc);
    std::vector<J::Attachment> at;
    for (auto &a : m.atts) at.emplace_back(a.path.c_str(), a.name.c_str(), a.cid.c_str());
    J::MessageAddress from(m.from.email.c_str(), m.from.name.c_str());
    if (m.single_ctor) {
        MA msg(from, to[0], m.subject.c_str(), m.body.c_str(), cc.empty() ? nullptr : &cc[0], bcc.empty() ? nullptr : &bcc[0], at.empty() ? nullptr : at.data(), at.size());
        f(msg);
    } else {
        MA msg(from, to.empty() ? nullptr : to.data(), to.size(), m.subject.c_str(), m.body.c_str(), cc.empty() ? nullptr : cc.data(), cc.size(),
               bcc.empty() ? nullptr : bcc.data(), bcc.size(), at.empty() ? nullptr : at.data(), at.size());
        f(msg);
    }
}
template <class PM, class JM, class F> static void build_cpp(const Msg &m, F f) {
    auto lst = [](const std::vector<Addr> &l) {
        std::vector<P::MessageAddress> v;
        for (auto &a : l) v.emplace_back(a.email, a.name);
        return v;
    };
    std::vector<P::Attachment> at;
    for (auto &a : m.atts) at.emplace_back(a.path, a.name, a.cid);
    PM msg(P::MessageAddress(m.from.email, m.from.name), lst(m.to), m.subject, m.body, lst(m.cc), lst(m.bcc), at);
    JM j = msg;
    f(j);
}
void with_message(const Msg &m, Api a, const std::function<void(const J::Message &)> &f) {
    if (a == kC || m.to.empty()) {   // the C++ classes insist on a To recipient
        if (m.html) build_c<J::HTMLMessage>(m, f); else build_c<J::PlaintextMessage>(m, f);
    } else {
        if (m.html) build_cpp<P::HTMLMessage, J::HTMLMessage>(m, f); else build_cpp<P::PlaintextMessage, J::PlaintextMessage>(m, f);
    }
}

template <class T, bool IsCpp, bool Secure> struct ClientT : Client {
    T c;
    typedef typename std::conditional<IsCpp, P::Credential, J::Credential>::type C;
    ClientT(const std::string &s, unsigned p, Kind k) : c(s.c_str(), p) { kind = k; api = IsCpp ? kCpp : kC; }
    ClientT(const ClientT &o) : Client(), c(o.c) { kind = o.kind; api = o.api; }
    ClientT(ClientT &&o) : Client(), c(std::move(o.c)) { kind = o.kind; api = o.api; }
    int send(const Msg &m) override {
        int rc = -12345;
        with_message(m, api, [&](const J::Message &j) { rc = c.sendMail(j); });
        return rc;
    }
    int send_lib(const J::Message &m) override { return c.sendMail(m); }
    std::string log() const override { return c.getCommunicationLog(); }
    std::string server() const override { return c.getServerName(); }
    unsigned port() const override { return c.getServerPort(); }
    bool batch() const override { return c.getBatchMode(); }
    unsigned timeout() const override { return c.getCommandTimeout(); }
    bool accept_self_signed() const override { if constexpr (Secure) return c.getAcceptSelfSignedCert(); else return false; }
    Cred cred() const override {
        Cred r;
        if (const C *p = c.getCredentials()) { r.set = true; r.user = p->getUsername(); r.pass = p->getPassword(); r.method = static_cast<int>(p->getRecommendedAuthOption()); }
        return r;
    }
    void set_server(const std::string &s) override { c.setServerName(s.c_str()); }
    void set_port(unsigned p) override { c.setServerPort(p); }
    void set_batch(bool b) override { c.setBatchMode(b); }
    void set_timeout(unsigned t) override { c.setCommandTimeout(t); }
    void set_accept_self_signed(bool b) override { if constexpr (Secure) c.setAcceptSelfSignedCert(b); (void)b; }
    void set_cred(const Cred &r) override {
        if (r.method == 0) { C x(r.user.c_str(), r.pass.c_str()); c.setCredentials(x); }
        else { C x(r.user.c_str(), r.pass.c_str(), static_cast<J::RecommendedAuthenticationMethod>(r.method)); c.setCredentials(x); }
    }
    void set_keep_base(bool b) override { c.setKeepUsingBaseSendCommands(b); }
    std::unique_ptr<Client> copy() const override { return std::unique_ptr<Client>(new ClientT(*this)); }
    std::unique_ptr<Client> move() override { return std::unique_ptr<Client>(new ClientT(std::move(*this))); }
    void assign(const Client &o) override { c = dynamic_cast<const ClientT &>(o).c; }
    void assign_move(Client &o) override { c = std::move(dynamic_cast<ClientT &>(o).c); }
    void self_alias_set_server() override { auto &&s = c.getServerName(); if constexpr (IsCpp) c.setServerName(s); else c.setServerName(s); }
    void self_alias_set_cred() override { if (c.getCredentials()) c.setCredentials(*c.getCredentials()); }
};
std::unique_ptr<Client> make_client(Kind k, Api a, const std::string &server, unsigned port) {
    typedef std::unique_ptr<Client> U;
    if (a == kC) {
        if (k == kPlain) return U(new ClientT<J::SmtpClient, false, false>(server, port, k));
        if (k == kOpp) return U(new ClientT<J::OpportunisticSecureSMTPClient, false, true>(server, port, k));
        return U(new ClientT<J::ForcedSecureSMTPClient, false, true>(server, port, k));
    }
    if (k == kPlain) return U(new ClientT<P::SmtpClient, true, false>(server, port, k));
    if (k == kOpp) return U(new ClientT<P::OpportunisticSecureSMTPClient, true, true>(server, port, k));
    return U(new ClientT<P::ForcedSecureSMTPClient, true, true>(server, port, k));
}

// ---------------------------------------------------------------------------------------------- network
void Net::install() {
    sim::w().plan = [this](sim::Conn &c) {
        size_t n = servers.size();
        auto s = std::make_shared<srv::SmtpServer>(conf ? conf(n, c) : srv::Conf());
        servers.push_back(s);
        sim::ConnPlan p;
        p.server = s;
        if (tweak) tweak(n, p);
        return p;
    };
}
std::vector<srv::Mail> Net::accepted() const {
    std::vector<srv::Mail> v;
    for (auto &s : servers) for (auto &m : s->mails) if (m.accepted) v.push_back(m);
    return v;
}
std::vector<std::string> Net::errors() const {
    std::vector<std::string> v;
    for (auto &s : servers) v.insert(v.end(), s->errors.begin(), s->errors.end());
    return v;
}
std::string Net::plain_in() const { std::string o; for (auto &s : servers) o += s->plain_in; return o; }
std::string Net::describe() const {
    std::string o;
    for (size_t i = 0; i < servers.size(); i++) {
        o += "[conn " + std::to_string(i) + "]";
        for (auto &c : servers[i]->cmds) o += " " + std::string(c.tls ? "(tls)" : "") + "C:" + pbt::esc(c.line, 60) + "->" + std::to_string(c.code);
        if (servers[i]->tls_failed) o += " tls-failed";
        o += "\n";
    }
    return o;
}
srv::Conf conf_for(Kind k, bool auth) {
    srv::Conf c;
    std::string a = "AUTH PLAIN LOGIN XOAUTH2";
    if (k == kPlain) { if (auth) c.ehlo.push_back(a); }
    if (k == kOpp) c.ehlo.push_back("STARTTLS");
    if (k == kForced) c.implicit_tls = true;
    if (!auth) c.ehlo_tls = {"SIZE 35882577", "8BITMIME"};
    return c;
}

// ---------------------------------------------------------------------------------------------- parsing
const Header *find_header(const std::vector<Header> &h, const std::string &name, size_t *count) {
    const Header *r = nullptr;
    size_t n = 0;
    for (auto &x : h) if (lower(x.name) == lower(name)) { if (!r) r = &x; n++; }
    if (count) *count = n;
    return r;
}
// Parses a header block (without the empty line). Problems are appended.
static void parse_headers(const std::string &block, std::vector<Header> &out, std::vector<std::string> &prob, const std::string &where) {
    size_t i = 0;
    std::vector<std::string> lines;
    while (i < block.size()) {
        size_t e = block.find("\r\n", i);
        if (e == std::string::npos) e = block.size();
        lines.push_back(block.substr(i, e - i));
        i = e + 2;
    }
    for (auto &l : lines) {
        if (l.find('\r') != std::string::npos || l.find('\n') != std::string::npos) prob.push_back(where + ": bare CR or LF in a header line: " + pbt::esc(l, 100));
        if (!l.empty() && wsp(l[0])) {
            if (out.empty()) { prob.push_back(where + ": continuation line without a header: " + pbt::esc(l, 100)); continue; }
            out.back().value += l;
            continue;
        }
        size_t c = l.find(':');
        bool ok = c != std::string::npos && c > 0;
        for (size_t k = 0; ok && k < c; k++) if (l[k] <= 32 || l[k] == 127) ok = false;
        if (!ok) { prob.push_back(where + ": not a header line: " + pbt::esc(l, 100)); continue; }
        out.push_back(Header{l.substr(0, c), l.substr(c + 1)});
    }
    for (auto &h : out) h.value = trim(h.value);
}
// Splits text into head (header block) and body at the first empty line.
static bool split_head(const std::string &t, std::string &head, std::string &body) {
    if (t.compare(0, 2, "\r\n") == 0) { head.clear(); body = t.substr(2); return true; }
    size_t p = t.find("\r\n\r\n");
    if (p == std::string::npos) { head = t; body.clear(); return false; }
    head = t.substr(0, p);
    body = t.substr(p + 4);
    return true;
}
bool parse_params(const std::string &v, std::string &main, std::vector<std::pair<std::string, std::string>> &params, std::string &err) {
    size_t i = 0;
    auto skip = [&]() { while (i < v.size() && (wsp(v[i]) || v[i] == '\r' || v[i] == '\n')) i++; };
    while (i < v.size() && v[i] != ';') main += v[i++];
    main = lower(trim(main));
    while (i < v.size()) {
        if (v[i] != ';') { err = "unexpected text in header value: " + pbt::esc(v, 150); return false; }
        i++; skip();
        if (i >= v.size()) break;
        std::string k, x;
        while (i < v.size() && v[i] != '=' && v[i] != ';' && !wsp(v[i])) k += v[i++];
        skip();
        if (i >= v.size() || v[i] != '=') { err = "parameter without value in: " + pbt::esc(v, 150); return false; }
        i++; skip();
        if (i < v.size() && v[i] == '"') {
            i++;
            bool closed = false;
            while (i < v.size()) {
                if (v[i] == '\\' && i + 1 < v.size()) { x += v[i + 1]; i += 2; continue; }
                if (v[i] == '"') { closed = true; i++; break; }
                x += v[i++];
            }
            if (!closed) { err = "unterminated quoted string in: " + pbt::esc(v, 150); return false; }
        } else {
            while (i < v.size() && v[i] != ';' && !wsp(v[i])) x += v[i++];
        }
        skip();
        params.push_back({lower(k), x});
    }
    return true;
}
Parsed parse_mail(const std::string &data) {
    Parsed p;
    std::string head, body;
    if (!split_head(data, head, body)) p.problems.push_back("no empty line after the headers");
    parse_headers(head, p.headers, p.problems, "mail header");
    const Header *ct = find_header(p.headers, "Content-Type");
    if (!ct) { p.problems.push_back("no Content-Type header"); return p; }
    std::vector<std::pair<std::string, std::string>> pr;
    std::string err;
    if (!parse_params(ct->value, p.media, pr, err)) p.problems.push_back("Content-Type: " + err);
    for (auto &x : pr) if (x.first == "boundary") p.boundary = x.second;
    if (p.media.compare(0, 10, "multipart/") != 0) { p.problems.push_back("content type is not multipart: " + p.media); return p; }
    if (p.boundary.empty() || p.boundary.size() > 70) { p.problems.push_back("no usable boundary parameter"); return p; }
    // walk the delimiter lines
    std::string delim = "--" + p.boundary;
    size_t pos = 0;            // start of the current section
    int state = 0;             // 0 preamble, 1 in part, 2 epilogue
    std::string all = body;
    size_t ls = 0;
    auto close_section = [&](size_t end) {   // end: start of the delimiter line
        size_t e = end;
        std::string sec;
        if (e >= pos + 2 && all.compare(e - 2, 2, "\r\n") == 0) sec = all.substr(pos, e - 2 - pos);
        else sec = all.substr(pos, e > pos ? e - pos : 0);
        if (state == 0) p.preamble = sec;
        else if (state == 1) {
            Part part;
            std::string h, b;
            if (!split_head(sec, h, b)) p.problems.push_back("part " + std::to_string(p.parts.size()) + ": no empty line after its headers");
            parse_headers(h, part.headers, p.problems, "header of part " + std::to_string(p.parts.size()));
            part.body = b;
            p.parts.push_back(part);
        }
    };
    while (ls <= all.size()) {
        size_t le = all.find("\r\n", ls);
        size_t lend = le == std::string::npos ? all.size() : le;
        if (state != 2 && all.compare(ls, delim.size(), delim) == 0) {
            std::string rest = all.substr(ls + delim.size(), lend - ls - delim.size());
            bool close = rest.compare(0, 2, "--") == 0;
            std::string tail = close ? rest.substr(2) : rest;
            bool blank = true;
            for (char c : tail) if (!wsp(c)) blank = false;
            if (blank) {
                close_section(ls);
                pos = std::min(lend + 2, all.size());
                state = close ? 2 : 1;
                if (close) p.closed = true;
            }
        }
        if (le == std::string::npos) break;
        ls = le + 2;
    }
    if (state == 1) { close_section(all.size()); p.problems.push_back("the last part is not followed by a closing delimiter"); }
    if (state == 0) p.problems.push_back("no part delimiter found");
    if (state == 2) p.epilogue = all.substr(pos);
    return p;
}

// RFC 5322 address list. Phrase words are joined by single spaces; comments are dropped.
bool parse_addresses(const std::string &v, std::vector<Addr> &out, std::string &err) {
    struct Tok { char k; std::string s; };   // 'a' atom, 'q' quoted, or the special itself
    std::vector<Tok> t;
    size_t i = 0;
    while (i < v.size()) {
        char c = v[i];
        if (wsp(c) || c == '\r' || c == '\n') { i++; t.push_back(Tok{' ', ""}); continue; }
        if (c == '"') {
            std::string x; bool closed = false; i++;
            while (i < v.size()) {
                if (v[i] == '\\' && i + 1 < v.size()) { x += v[i + 1]; i += 2; continue; }
                if (v[i] == '"') { closed = true; i++; break; }
                x += v[i++];
            }
            if (!closed) { err = "unterminated quoted string"; return false; }
            t.push_back(Tok{'q', x});
            continue;
        }
        if (c == '(') {
            int depth = 0; bool closed = false;
            while (i < v.size()) {
                if (v[i] == '\\' && i + 1 < v.size()) { i += 2; continue; }
                if (v[i] == '(') depth++;
                if (v[i] == ')' && --depth == 0) { i++; closed = true; break; }
                i++;
            }
            if (!closed) { err = "unterminated comment"; return false; }
            t.push_back(Tok{' ', ""});
            continue;
        }
        if (strchr("<>,:;@.[])\\", c) && c) { t.push_back(Tok{c, std::string(1, c)}); i++; continue; }
        std::string a;
        while (i < v.size() && !wsp(v[i]) && v[i] != '\r' && v[i] != '\n' && !(strchr("\"()<>,:;@.[]\\", v[i]) && v[i])) a += v[i++];
        t.push_back(Tok{'a', a});
    }
    size_t k = 0;
    auto ws = [&]() { while (k < t.size() && t[k].k == ' ') k++; };
    auto addr_spec = [&](std::string &o) -> bool {   // local@domain, no blanks inside
        bool any = false;
        while (k < t.size() && (t[k].k == 'a' || t[k].k == '.' || t[k].k == 'q')) { o += t[k].s; k++; any = true; }
        if (!any) { err = "address without local part"; return false; }
        if (k >= t.size() || t[k].k != '@') { err = "address without @"; return false; }
        o += '@'; k++;
        any = false;
        while (k < t.size() && (t[k].k == 'a' || t[k].k == '.')) { o += t[k].s; k++; any = true; }
        if (!any) { err = "address without domain"; return false; }
        return true;
    };
    while (true) {
        ws();
        if (k >= t.size()) { err = out.empty() ? "empty list" : "list ends with a comma"; return false; }
        // look ahead: does an angle bracket come before the next comma?
        size_t q = k;
        while (q < t.size() && t[q].k != '<' && t[q].k != ',') q++;
        Addr a;
        if (q < t.size() && t[q].k == '<') {
            bool sp = false;
            while (t[k].k != '<') {
                if (t[k].k == ' ') { sp = true; k++; continue; }
                if (t[k].k != 'a' && t[k].k != 'q' && t[k].k != '.') { err = std::string("character ") + t[k].k + " in an unquoted display name"; return false; }
                if (sp && !a.name.empty()) a.name += ' ';
                sp = false;
                a.name += t[k].s;
                k++;
            }
            k++; ws();
            if (!addr_spec(a.email)) return false;
            ws();
            if (k >= t.size() || t[k].k != '>') { err = "missing >"; return false; }
            k++;
        } else {
            if (!addr_spec(a.email)) return false;
        }
        out.push_back(a);
        ws();
        if (k >= t.size()) return true;
        if (t[k].k != ',') { err = std::string("unexpected ") + t[k].s + " after an address"; return false; }
        k++;
    }
}
bool reply_complete(const std::string &r) {
    if (r.size() < 6 || r.compare(r.size() - 2, 2, "\r\n") != 0) return false;
    size_t p = r.rfind("\r\n", r.size() - 3);
    std::string last = p == std::string::npos ? r : r.substr(p + 2);
    return srv::code_of(last) >= 0 && last.size() > 3 && last[3] == ' ';
}

// ---------------------------------------------------------------------------------------------- assertions
std::string check_envelope(const Msg &m, const srv::Mail &d) {
    if (d.from != m.from.email) return "envelope sender is <" + pbt::esc(d.from) + ">, message From is <" + pbt::esc(m.from.email) + ">";
    std::vector<std::string> want = all_rcpts(m);
    if (d.rcpts != want) {
        std::string g, w;
        for (auto &x : d.rcpts) g += pbt::esc(x, 60) + " ";
        for (auto &x : want) w += pbt::esc(x, 60) + " ";
        return "envelope recipients [" + g + "] expected [" + w + "]";
    }
    return "";
}
static std::string check_list(const Parsed &p, const char *name, const std::vector<Addr> &want) {
    size_t n = 0;
    const Header *h = find_header(p.headers, name, &n);
    if (n > 1) return std::string(name) + " header occurs " + std::to_string(n) + " times";
    if (want.empty()) return n ? std::string(name) + " header present although its list is empty" : "";
    if (!n) return std::string(name) + " header missing";
    std::vector<Addr> got;
    std::string err;
    if (!parse_addresses(h->value, got, err)) return std::string(name) + " header is not a valid address list (" + err + "): " + pbt::esc(h->value, 300);
    if (got.size() != want.size()) return std::string(name) + " header yields " + std::to_string(got.size()) + " addresses, expected " + std::to_string(want.size()) + ": " + pbt::esc(h->value, 300);
    for (size_t i = 0; i < want.size(); i++) {
        if (got[i].email != want[i].email) return std::string(name) + " header address " + std::to_string(i) + " is <" + pbt::esc(got[i].email) + ">, expected <" + pbt::esc(want[i].email) + ">";
        if (squash(got[i].name) != squash(want[i].name)) return std::string(name) + " header display name " + std::to_string(i) + " is \"" + pbt::esc(got[i].name) + "\", expected \"" + pbt::esc(want[i].name) + "\"";
    }
    return "";
}
std::string check_headers(const Msg &m, const Parsed &p) {
    if (!p.problems.empty()) return p.problems[0];
    std::string e;
    if (!(e = check_list(p, "From", {m.from})).empty()) return e;
    if (!(e = check_list(p, "To", m.to)).empty()) return e;
    if (!(e = check_list(p, "Cc", m.cc)).empty()) return e;
    size_t n = 0;
    const Header *h = find_header(p.headers, "Subject", &n);
    if (n != 1) return "Subject header occurs " + std::to_string(n) + " times";
    bool breaks = m.subject.find_first_of("\r\n") != std::string::npos;     // those may be dropped or replaced
    if (breaks ? squash(h->value) != squash(m.subject) : trim(h->value) != trim(m.subject)) return "Subject is \"" + pbt::esc(h->value) + "\", expected \"" + pbt::esc(m.subject) + "\"";
    find_header(p.headers, "Content-Type", &n);
    if (n != 1) return "Content-Type header occurs " + std::to_string(n) + " times";
    if (find_header(p.headers, "Bcc")) return "a Bcc header was sent";
    if (p.parts.empty()) return "no part";
    const Header *ct = find_header(p.parts[0].headers, "Content-Type", &n);
    if (n != 1) return "text part has " + std::to_string(n) + " Content-Type headers";
    std::string main, err, cs;
    std::vector<std::pair<std::string, std::string>> pr;
    if (!parse_params(ct->value, main, pr, err)) return "text part: " + err;
    for (auto &x : pr) if (x.first == "charset") cs = lower(x.second);
    if (main != (m.html ? "text/html" : "text/plain")) return "text part is declared " + main;
    if (cs != "utf-8") return "text part charset is \"" + cs + "\"";
    if (find_header(p.parts[0].headers, "Content-Transfer-Encoding")) {
        std::string v = lower(find_header(p.parts[0].headers, "Content-Transfer-Encoding")->value);
        if (v != "8bit" && v != "7bit" && v != "binary") return "text part transfer encoding " + v;
    }
    return "";
}
static std::string strip_breaks(std::string s) {
    while (!s.empty() && (s.back() == '\r' || s.back() == '\n')) s.pop_back();
    return s;
}
std::string check_text(const Msg &m, const Parsed &p) {
    if (p.parts.empty()) return "no text part received" + (p.problems.empty() ? std::string() : " (" + p.problems[0] + ")");
    std::string want = canon_breaks(m.body), got = p.parts[0].body;
    std::string w = strip_breaks(want), g = strip_breaks(got);
    if (w != g) {
        size_t i = 0;
        while (i < w.size() && i < g.size() && w[i] == g[i]) i++;
        size_t a = i > 40 ? i - 40 : 0;
        return "text part differs at byte " + std::to_string(i) + " (expected " + std::to_string(w.size()) + " bytes, got " + std::to_string(g.size()) + "): expected ..." +
               pbt::esc(w.substr(a, 90)) + " got ..." + pbt::esc(g.substr(a, 90));
    }
    // bare CR or LF must not be left in the received text
    for (size_t i = 0; i < got.size(); i++)
        if ((got[i] == '\n' && (i == 0 || got[i - 1] != '\r')) || (got[i] == '\r' && (i + 1 >= got.size() || got[i + 1] != '\n'))) return "bare line break left at byte " + std::to_string(i);
    long d = static_cast<long>(got.size() - g.size()) - static_cast<long>(want.size() - w.size());
    if (d < 0) return "line breaks at the end were dropped";
    if (d > 6) return std::to_string(d) + " bytes of line breaks appended";
    return "";
}
std::string check_attachments(const Msg &m, const Parsed &p) {
    if (!p.problems.empty()) return p.problems[0];
    if (p.parts.size() != 1 + m.atts.size()) return std::to_string(p.parts.size()) + " parts received, expected " + std::to_string(1 + m.atts.size());
    if (!p.closed) return "multipart is not closed";
    if (!trim(p.epilogue).empty()) return "text behind the closing delimiter: " + pbt::esc(p.epilogue, 100);
    if (!trim(p.preamble).empty()) return "text before the first part: " + pbt::esc(p.preamble, 100);
    for (size_t i = 0; i < m.atts.size(); i++) {
        const Att &a = m.atts[i];
        const Part &q = p.parts[i + 1];
        std::string w = "attachment " + std::to_string(i) + ": ";
        for (auto &h : q.headers) { size_t n; find_header(q.headers, h.name, &n); if (n != 1) return w + "header " + h.name + " occurs " + std::to_string(n) + " times"; }
        const Header *te = find_header(q.headers, "Content-Transfer-Encoding");
        if (!te || lower(te->value) != "base64") return w + "not declared base64";
        bool ok = true;
        std::string dec = srv::b64dec(q.body, &ok);
        if (!ok) return w + "body is not clean base64";
        if (dec != a.content) {
            size_t k = 0;
            while (k < dec.size() && k < a.content.size() && dec[k] == a.content[k]) k++;
            return w + "content differs at byte " + std::to_string(k) + " (" + std::to_string(dec.size()) + " bytes received, file has " + std::to_string(a.content.size()) + ")";
        }
        const Header *cd = find_header(q.headers, "Content-Disposition");
        if (!cd) return w + "no Content-Disposition";
        std::string main, err, fn;
        bool has = false;
        std::vector<std::pair<std::string, std::string>> pr;
        if (!parse_params(cd->value, main, pr, err)) return w + err;
        for (auto &x : pr) if (x.first == "filename") { fn = x.second; has = true; }
        if (!has || fn != a.name) return w + "file name is \"" + pbt::esc(fn) + "\", expected \"" + pbt::esc(a.name) + "\"";
        const Header *ct = find_header(q.headers, "Content-Type");
        if (!ct) return w + "no Content-Type";
        main.clear(); pr.clear();
        if (!parse_params(ct->value, main, pr, err)) return w + err;
        if (main != a.mime) return w + "content type is " + main + ", expected " + a.mime;
        const Header *ci = find_header(q.headers, "Content-ID");
        if (a.cid.empty() && ci) return w + "Content-ID sent although none was set";
        if (!a.cid.empty() && (!ci || ci->value != "<" + a.cid + ">")) return w + "Content-ID is " + (ci ? pbt::esc(ci->value) : "missing") + ", expected <" + a.cid + ">";
    }
    return "";
}
std::string check_all(const Msg &m, const srv::Mail &d) {
    Parsed p = parse_mail(d.data);
    std::string e = check_envelope(m, d);
    if (e.empty()) e = check_headers(m, p);
    if (e.empty()) e = check_text(m, p);
    if (e.empty()) e = check_attachments(m, p);
    return e;
}
}  // namespace model
