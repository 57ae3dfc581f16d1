// Server scripts: deviations from the normal dialogue at chosen steps, and the results they call for.
#pragma once
#include "common.h"

namespace script {
using srv::Step;
enum What { kRefuse, kRefuseClose, kSilent, kClose, kReset, kMalformed, kGoodVariant, kGoodClose, kGoodReset, kPartialClose, kWhats };
static const char *what_names[kWhats] = {"refuses", "refuses and closes", "stays silent", "closes", "resets", "answers malformed", "accepts in another form", "accepts and closes", "accepts and resets", "breaks off its reply"};
struct Deviation { Step step; int nth; What what; int code; std::string text; };
struct Said { Step step; What what; int code; int good; bool deviates; std::string line; };   // one reply given

inline std::string malformed(pbt::Src &s, int good) {
    std::string g = std::to_string(good);
    const std::vector<std::string> v{"hello\r\n", g + "0 ok\r\n", "\r\n", " " + g + " ok\r\n", g.substr(0, 2) + "\r\n", "2", g, g + "-ok\r\n", g + "-a\r\n" + g + "-b\r\n", "-" + g + " ok\r\n", "+" + g.substr(1) + " ok\r\n",
        "0x" + g + "\r\n", g.substr(0, 1) + " " + g.substr(1) + " ok\r\n", g + " ok", "2a0 ok\r\n", "000 ok\r\n", std::string("\0\0\0", 3) + g + " ok\r\n", "\r\n" + g + " ok\r\n", g + "-a\r\n550 no\r\n", "ok " + g + "\r\n", "99999999999999999999 ok\r\n",
        std::string(5000, 'x') + "\r\n", "\xff\xfe" + g + " ok\r\n", "x" + g + " ok\r\n", "\t" + g + " ok\r\n", g[0] + std::string("5") + "\r\n", "0" + g.substr(1) + " ok\r\n"};
    return s.pick(v);
}
inline Deviation gen(pbt::Src &s, const std::vector<Step> &steps, size_t rcpts) {
    Deviation d{s.pick(steps), 0, kRefuse, 0, ""};
    if (d.step == srv::RCPT && rcpts > 1) d.nth = static_cast<int>(s.index(rcpts));
    if (d.step == srv::MAIL) d.nth = static_cast<int>(s.weighted({5, 1, 1}));
    d.what = static_cast<What>(s.weighted({6, 1, 2, 2, 1, 3, 2, 1, 1, 1}));
    static const std::vector<int> codes{550, 421, 450, 451, 452, 500, 501, 502, 503, 504, 521, 530, 534, 535, 538, 551, 552, 553, 554, 555, 221, 235, 354, 334, 214, 211, 220, 250, 100, 199, 299, 399, 600, 999, 432, 454};
    d.code = s.chance(1, 8) ? static_cast<int>(s.range(100, 599)) : s.pick(codes);
    if (d.step == srv::RCPT && (d.code == 251 || d.code == 252)) d.code = 550;
    return d;
}
inline std::vector<Step> steps_of(model::Kind k, bool cred, int method, bool opp_tls = true) {
    std::vector<Step> v;
    if (k != model::kForced) { v.push_back(srv::GREETING); v.push_back(srv::EHLO); }
    if (k == model::kOpp && opp_tls) v.push_back(srv::STARTTLS);
    if (k == model::kForced) v.push_back(srv::GREETING);
    if (k == model::kForced || (k == model::kOpp && opp_tls)) v.push_back(srv::EHLO_TLS);
    if (cred && (k != model::kOpp || opp_tls)) { v.push_back(srv::AUTH); if (method == 2) { v.push_back(srv::AUTH2); v.push_back(srv::AUTH3); } }
    for (Step x : {srv::MAIL, srv::RCPT, srv::RCPT, srv::DATA, srv::EOD, srv::EOD}) v.push_back(x);
    return v;
}

// Runs in the server: applies the deviations and records what was said.
struct Script {
    std::vector<Deviation> dev;
    std::vector<Said> said;
    std::function<std::string()> last_line;        // the command being answered
    pbt::Src *src = nullptr;
    int rich = -1;                                 // one script in three has replies of any wording
    bool apply(Step step, int nth, srv::Reply &r) {
        if (rich < 0) rich = src->chance(1, 3);
        if (rich && step != srv::EHLO && step != srv::EHLO_TLS && r.complete && srv::code_of(r.text) > 0) r.text = cm::good_reply(*src, srv::code_of(r.text), 3);
        std::string l = last_line ? last_line() : "";
        int good = step == srv::AUTH ? (l == "AUTH LOGIN" ? 334 : 235) : cm::good_code(step);
        Said x{step, kGoodVariant, srv::code_of(r.text), good, false, l};
        for (auto &d : dev) {
            if (d.step != step || d.nth != nth || x.deviates) continue;
            if (x.code != good) continue;            // the server refuses anyway
            x.deviates = true;
            x.what = d.what;
            switch (d.what) {
            case kRefuse: case kRefuseClose: {
                int code = d.code == good ? 550 : d.code;
                r.text = cm::good_reply(*src, code); r.fin = d.what == kRefuseClose; x.code = code; break;
            }
            case kSilent: r.silent = true; x.code = -2; break;
            case kClose: r.silent = true; r.fin = true; x.code = -2; break;
            case kReset: r.silent = true; r.rst = true; x.code = -2; break;
            case kMalformed: r.text = malformed(*src, good); r.complete = false; r.fin = src->chance(1, 3); x.code = -3; break;
            case kGoodVariant: if (step != srv::EHLO && step != srv::EHLO_TLS) r.text = cm::good_reply(*src, good, 6, 3000); break;
            case kGoodClose: r.fin = true; break;
            case kGoodReset: r.rst = true; break;
            case kPartialClose: {
                size_t n = static_cast<size_t>(src->range(0, static_cast<int64_t>(r.text.size()) - 2));
                r.text = r.text.substr(0, n); r.fin = true; r.complete = false; x.code = -3; break;
            }
            default: break;
            }
        }
        said.push_back(x);
        return true;
    }
};
// The results the documentation allows after this sequence of replies. lists: number of recipients in To, Cc, Bcc.
inline cm::Codes allowed(const std::vector<Said> &said, const std::vector<size_t> &lists, bool auth_missing) {
    using namespace srv;
    cm::Codes refused;
    size_t rcpt = 0;
    auto list_of = [&](size_t i) { for (size_t l = 0; l < lists.size(); l++) { if (i < lists[l]) return l; i -= lists[l]; } return lists.size(); };
    size_t refused_list = 0;
    for (size_t i = 0; i < said.size(); i++) {
        const Said &x = said[i];
        if (x.step == QUIT || x.step == OTHER) continue;
        bool last = i + 1 == said.size() || said[i + 1].step == QUIT;
        if (!refused.empty() && (x.step != RCPT || list_of(rcpt) != refused_list)) return refused;   // C06 judges going on
        // no answer, with the connection still there, is a time-out and nothing else
        if (x.code == -2 && x.what == kSilent && refused.empty() && x.step != GREETING && x.step != AUTH && x.step != AUTH2 && x.step != AUTH3)
            return {x.step == EHLO ? -21 : x.step == STARTTLS ? -31 : x.step == EHLO_TLS ? -60 : x.step == MAIL ? -86 : x.step == RCPT ? -88 : x.step == DATA ? -90 : -98};
        if (x.code == -2 || x.code == -3) { cm::Codes r = cm::step_codes(x.step); cm::add(r, refused); if (x.code == -3 && x.what == kMalformed) r.insert(550); return r; }
        if (x.code == x.good) {
            if (x.step == RCPT) rcpt++;
            if (x.step == EOD && !(x.deviates && (x.what == kGoodClose || x.what == kGoodReset))) return {0};
            if (x.deviates && (x.what == kGoodClose || x.what == kGoodReset)) {
                if (x.step == EOD) return {0, -99, -97, -98};
                cm::Codes r = cm::from_step(x.step == GREETING ? EHLO : static_cast<Step>(x.step == RCPT || x.step == AUTH || x.step == AUTH2 ? x.step : x.step + 1));
                if (x.step == EHLO) cm::add(r, cm::from_step(STARTTLS));
                if (auth_missing) r.insert(-84);
                cm::add(r, refused);
                return r;
            }
            continue;
        }
        // a refusal
        bool gone = x.deviates && x.what == kRefuseClose;
        if (x.step == MAIL && x.code == 501) {
            if (!last) continue;
            cm::Codes r{501};
            if (gone) cm::add(r, cm::step_codes(MAIL));
            return r;
        }
        if (x.step == RCPT) {
            refused_list = list_of(rcpt++);
            refused.insert(x.code);
            if (gone) cm::add(refused, cm::step_codes(RCPT));
            continue;
        }
        if ((x.step == AUTH && x.good == 334) || x.step == AUTH2) return {-81};
        if (x.step == AUTH3) return {-81, x.code};
        return {x.code};
    }
    if (!refused.empty()) return refused;
    if (auth_missing) return {-84};
    return {};
}
inline std::string show(const std::vector<Deviation> &v) {
    std::string o;
    for (auto &d : v) { o += std::string("server ") + what_names[d.what] + " at " + srv::step_names[d.step] + "#" + std::to_string(d.nth); if (d.what <= kRefuseClose) o += " with " + std::to_string(d.code); o += "; "; }
    return o;
}
inline std::string show(const std::vector<Said> &v) {
    std::string o;
    for (auto &x : v) o += std::string(" ") + srv::step_names[x.step] + (x.deviates ? std::string("(") + what_names[x.what] + ")" : "") + "=" + std::to_string(x.code);
    return o;
}
}  // namespace script
