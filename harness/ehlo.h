// EHLO replies: generator and reference reader.
#pragma once
#include <set>
#include <string>
#include <vector>
#include "engine.h"
#include "model.h"

namespace ehlo {
struct Reply {
    std::vector<std::string> lines;      // without code and separator
    bool final_nl = true;
    std::string text() const {
        std::string o;
        for (size_t i = 0; i < lines.size(); i++) o += std::string("250") + (i + 1 < lines.size() ? "-" : " ") + lines[i] + (i + 1 < lines.size() || final_nl ? "\r\n" : "");
        return o;
    }
};
inline std::string upper(std::string s) { for (char &c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }
inline std::vector<std::string> words(const std::string &l) {
    std::vector<std::string> w;
    std::string x;
    for (char c : l + " ") { if (c == ' ') { if (!x.empty()) w.push_back(upper(x)); x.clear(); } else x += c; }
    return w;
}
inline bool starttls(const Reply &r) {
    for (auto &l : r.lines) { auto w = words(l); if (!w.empty() && w[0] == "STARTTLS") return true; }
    return false;
}
inline std::set<std::string> mechs(const Reply &r) {
    std::set<std::string> m;
    for (auto &l : r.lines) { auto w = words(l); if (!w.empty() && w[0] == "AUTH") m.insert(w.begin() + 1, w.end()); }
    return m;
}
inline std::string recase(pbt::Src &s, std::string w) {
    switch (s.weighted({5, 2, 2})) {
    case 0: return w;
    case 1: return model::lower(w);
    default: for (char &c : w) if (s.chance(1, 2) && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return w;
    }
}
// want_tls / want_auth: -1 random, 0 no, 1 yes; mech: the mechanisms to offer (null = random)
inline Reply gen(pbt::Src &s, int want_tls = -1, int want_auth = -1, const std::vector<std::string> *mech = nullptr) {
    static const std::vector<std::string> other{"SIZE 35882577", "8BITMIME", "PIPELINING", "ENHANCEDSTATUSCODES", "SMTPUTF8", "CHUNKING", "DSN", "HELP", "VRFY", "X-ANONYMOUSTLS", "LIMITS RCPTMAX=100",
        "XSTARTTLS", "STARTTLSX", "STARTTLS2 OFF", "HELP STARTTLS", "X-STARTTLS", "NOSTARTTLS", "XCLIENT AUTH STARTTLS", "AUTHX PLAIN", "XAUTH LOGIN PLAIN", "X-AUTH PLAIN LOGIN", "NOAUTH", "HELP AUTH PLAIN", "AUTHINFO PLAIN LOGIN", "ETRN", "250 OK", "250-STARTTLS", "Hello AUTH LOGIN"};
    static const std::vector<std::string> known{"PLAIN", "LOGIN", "XOAUTH2", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH"};
    static const std::vector<std::string> strange{"PLAINX", "XPLAIN", "LOGIN2", "XLOGIN", "CRAM-MD5", "DIGEST-MD5", "NTLM", "GSSAPI", "SCRAM-SHA-256", "XOAUTH22", "XOAUTH2-X", "PLAIN-", "-LOGIN", "OAUTH"};
    Reply r;
    std::vector<std::string> caps;
    size_t n = s.weighted({3, 2, 2, 2, 1}) + (s.chance(1, 12) ? static_cast<size_t>(s.range(5, 60)) : 0) + (s.chance(1, 200) ? static_cast<size_t>(s.range(60, 600)) : 0);
    for (size_t i = 0; i < n; i++) {
        std::string o = s.pick(other);
        if (s.chance(1, 10)) o += std::string(static_cast<size_t>(s.range(1, 400)), 'p');
        caps.insert(caps.begin() + static_cast<long>(s.index(caps.size() + 1)), o);
    }
    if (want_tls == 1 || (want_tls < 0 && s.chance(1, 2))) {
        std::string l = recase(s, "STARTTLS");
        if (s.chance(1, 8)) l += " ";
        if (s.chance(1, 12)) l += "REQUIRED";
        caps.insert(caps.begin() + static_cast<long>(s.index(caps.size() + 1)), l == "STARTTLSREQUIRED" ? "STARTTLS REQUIRED" : l);
    }
    if (want_auth == 1 || (want_auth < 0 && s.chance(1, 2))) {
        std::string l = recase(s, "AUTH");
        std::vector<std::string> w;
        if (mech) w = *mech;
        else for (auto &k : known) if (s.chance(1, 3)) w.push_back(k);
        for (int64_t k = s.weighted({3, 1, 1}); k > 0; k--) {
            w.push_back(s.pick(strange));
            if (s.chance(1, 6)) w.back() += "-" + std::string(static_cast<size_t>(s.chance(1, 6) ? s.range(200, 1100) : s.range(8, 140)), static_cast<char>('A' + s.index(26)));
        }
        if (s.chance(1, 60)) for (int64_t k = s.range(20, 300); k > 0; k--) w.push_back("X" + std::to_string(k));
        for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[s.index(i)]);
        std::vector<std::string> more;             // some servers announce their mechanisms in several lines
        for (size_t k = s.weighted({6, 1, 1}); k > 0; k--) more.push_back(recase(s, "AUTH"));
        for (auto &x : w) {
            std::string &to = more.empty() || s.chance(1, 2) ? l : more[s.index(more.size())];
            to += (s.chance(1, 20) ? "  " : " ") + recase(s, x);
            if (!more.empty() && s.chance(1, 6)) more[s.index(more.size())] += " " + x;
        }
        if (s.chance(1, 8)) l += " ";
        for (auto &x : more) caps.insert(caps.begin() + static_cast<long>(s.index(caps.size() + 1)), x);
        size_t at = s.index(caps.size() + 1);
        caps.insert(caps.begin() + static_cast<long>(at), l);
        if (s.chance(1, 5) && !w.empty()) {   // the old spelling of the same line, for old clients
            std::string e = "AUTH=";
            for (size_t i = 0; i < w.size(); i++) e += (i ? " " : "") + w[i];
            caps.insert(caps.begin() + static_cast<long>(s.index(caps.size() + 1)), e);
        }
    }
    if (!s.chance(1, 6) || caps.empty()) {
        static const std::vector<std::string> hello{"mail.example.com", "mail.example.com Hello localhost [192.0.2.1]", "mx at your service", "auth.example.com STARTTLS", "starttls.example.com AUTH PLAIN LOGIN", "m"};
        caps.insert(caps.begin(), s.pick(hello));
    }
    r.lines = caps;
    return r;
}
}  // namespace ehlo
