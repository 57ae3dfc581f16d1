// C26: invalid arguments are rejected and leave objects unchanged.
#include <stdexcept>
#include "values.h"
#include "src/smtpclient.h"
#include "src/opportunisticsecuresmtpclient.h"
#include "src/forcedsecuresmtpclient.h"
namespace J = jed_utils;
namespace P = jed_utils::cpp;

static const char WS[] = " \t\n\v\f\r";
static bool blank(const std::string &s) { return s.find_first_not_of(WS) == std::string::npos; }
static std::string arg(pbt::Src &s) {
    switch (s.weighted({4, 2, 4, 2, 2})) {
    case 0: return model::gen_word(s, 8);
    case 1: return "";
    case 2: { std::string o; for (int64_t n = s.range(1, 6); n > 0; n--) o += WS[s.index(6)]; return o; }
    case 3: { std::string o; for (int64_t n = s.range(0, 4); n > 0; n--) o += WS[s.index(6)]; o += s.chance(1, 2) ? "\x01" : "\xa0"; for (int64_t n = s.range(0, 3); n > 0; n--) o += WS[s.index(6)]; return o; }
    default: return val::text(s);
    }
}
// Calls f and says whether it refused with the invalid-argument exception.
template <class F> static bool refused(pbt::Ctx &c, const std::string &what, F f) {
    try { f(); } catch (const std::invalid_argument &) { return true; } catch (const std::exception &e) { c.fail("exception", what + " throws another exception: " + e.what()); }
    return false;
}
static std::string q(const std::string &s) { return "\"" + pbt::esc(s, 60) + "\""; }
static void verdict(pbt::Ctx &c, const std::string &what, bool ref, bool bad) {
    c.check(ref == bad, ref ? "refused-valid" : "accepted-invalid", what + (ref ? " is refused although valid" : " is accepted although invalid"));
    c.label(bad ? "invalid argument" : "valid argument");
}
typedef std::vector<std::string> Obs;
static Obs obs(const model::Client &k) {
    model::Cred r = k.cred();
    return {k.server(), std::to_string(k.port()), k.batch() ? "1" : "0", std::to_string(k.timeout()), k.accept_self_signed() ? "1" : "0", r.set ? "1" : "0", r.user, r.pass, std::to_string(r.method), k.log()};
}

static void clients(pbt::Src &s, pbt::Ctx &c) {
    model::Kind k = static_cast<model::Kind>(s.index(3));
    model::Api a = static_cast<model::Api>(s.index(2));
    c.d(std::string("client ") + model::kind_names[k] + "/" + model::api_names[a] + ":");
    std::unique_ptr<model::Client> o;
    Obs m;
    for (int64_t n = s.range(1, 12); n > 0; n--) {
        std::string x = arg(s);
        if (!o || s.chance(1, 6)) {
            std::unique_ptr<model::Client> p;
            unsigned port = static_cast<unsigned>(s.range(0, 70000));
            bool r = refused(c, "constructor", [&]() { p = model::make_client(k, a, x, port); });
            c.d(" new(" + q(x) + ")");
            verdict(c, "server name " + q(x) + " in the constructor", r, blank(x));
            if (!r) {
                o = std::move(p);
                m = {x, std::to_string(port), "0", std::to_string(o->timeout()), "0", "0", "", "", "0", ""};
            }
        } else switch (s.weighted({5, 3, 2, 2, 2, 2, 1})) {
        case 0: {
            bool r = refused(c, "setServerName", [&]() { o->set_server(x); });
            c.d(" setServerName(" + q(x) + ")");
            verdict(c, "setServerName(" + q(x) + ")", r, blank(x));
            if (!r) m[0] = x;
            break;
        }
        case 1: {
            std::string y = arg(s);
            model::Cred r; r.set = true; r.user = x; r.pass = y; r.method = static_cast<int>(s.range(0, 3));
            bool ref = refused(c, "credentials", [&]() { o->set_cred(r); });
            c.d(" setCredentials(" + q(x) + "," + q(y) + ")");
            verdict(c, "credentials " + q(x) + "/" + q(y), ref, blank(x) || y.empty());
            if (!ref) { m[5] = "1"; m[6] = x; m[7] = y; m[8] = std::to_string(r.method); }
            break;
        }
        case 2: c.d(" setServerName(getServerName())"); o->self_alias_set_server(); c.label("self alias"); break;
        case 3: c.d(" setCredentials(*getCredentials())"); o->self_alias_set_cred(); c.label("self alias"); break;
        case 4: { unsigned p = static_cast<unsigned>(s.bits(4)); o->set_port(p); m[1] = std::to_string(p); c.d(" setServerPort"); break; }
        case 5: { unsigned p = static_cast<unsigned>(s.bits(4)); o->set_timeout(p); m[3] = std::to_string(p); c.d(" setCommandTimeout"); break; }
        default: { bool b = s.chance(1, 2); o->set_batch(b); m[2] = b ? "1" : "0"; c.d(" setBatchMode"); }
        }
        if (o) val::same(c, obs(*o), m, "client after the call");
    }
    // null arguments of the C interface
    if (a == model::kC) {
        verdict(c, "null server name", refused(c, "constructor", [&]() {
            if (k == model::kPlain) J::SmtpClient x(nullptr, 25); else if (k == model::kOpp) J::OpportunisticSecureSMTPClient x(nullptr, 25); else J::ForcedSecureSMTPClient x(nullptr, 25); }), true);
        J::SmtpClient p("host", 25);
        verdict(c, "setServerName(null)", refused(c, "setServerName", [&]() { p.setServerName(nullptr); }), true);
        c.check(std::string(p.getServerName()) == "host", "changed", "a refused null server name changed the name to " + q(p.getServerName()));
        // the end of the present name
        std::string nm = model::gen_word(s, 9);
        p.setServerName(nm.c_str());
        size_t off = s.index(nm.size());
        p.setServerName(p.getServerName() + off);
        c.check(std::string(p.getServerName()) == nm.substr(off), "alias", "setServerName(getServerName()+" + std::to_string(off) + ") gives " + q(p.getServerName()));
    }
}
template <class C> static void alias(pbt::Src &, pbt::Ctx &, C &, Obs &) {}
static void alias(pbt::Src &s, pbt::Ctx &c, J::Credential &o, Obs &m) {
    if (s.chance(1, 2)) { size_t k = 0; while (k + 1 < m[0].size() && s.chance(1, 2) && !blank(m[0].substr(k + 1))) k++; o.setUsername(o.getUsername() + k); m[0] = m[0].substr(k); c.d(" setUsername(own)"); }
    else { size_t k = s.index(m[1].size()); o.setPassword(o.getPassword() + k); m[1] = m[1].substr(k); c.d(" setPassword(own)"); }
    c.label("self alias");
}
static void alias(pbt::Src &s, pbt::Ctx &c, P::Credential &o, Obs &m) {
    if (s.chance(1, 2)) { o.setUsername(o.getPassword() + "x"); m[0] = m[1] + "x"; } else { o.setPassword(o.getUsername()); m[1] = m[0]; }
    c.label("self alias");
}
template <class C, bool Null> static void credentials(pbt::Src &s, pbt::Ctx &c) {
    c.d(Null ? "Credential:" : "cpp::Credential:");
    std::unique_ptr<C> o;
    Obs m;
    for (int64_t n = s.range(1, 12); n > 0; n--) {
        std::string x = arg(s), y = arg(s);
        if (!o || s.chance(1, 6)) {
            std::unique_ptr<C> p;
            bool three = s.chance(1, 2);
            val::Buf bx(x), by(y);
            bool nx = Null && s.chance(1, 10), ny = Null && s.chance(1, 10);
            const char *px = nx ? nullptr : bx.p, *py = ny ? nullptr : by.p;
            bool r = refused(c, "constructor", [&]() { p.reset(three ? new C(px, py, J::RecommendedAuthenticationMethod::kLogin) : new C(px, py)); });
            c.d(" new(" + (nx ? "null" : q(x)) + "," + (ny ? "null" : q(y)) + ")");
            verdict(c, "credential " + (nx ? "null" : q(x)) + "/" + (ny ? "null" : q(y)), r, nx || ny || blank(x) || y.empty());
            if (!r) { o = std::move(p); m = {x, y, three ? std::to_string(static_cast<int>(J::RecommendedAuthenticationMethod::kLogin)) : "0"}; }
        } else switch (s.weighted({4, 4, 3})) {
        case 0: {
            val::Buf b(x); bool nul = Null && s.chance(1, 8);
            bool r = refused(c, "setUsername", [&]() { o->setUsername(nul ? nullptr : b.p); });
            c.d(" setUsername(" + (nul ? "null" : q(x)) + ")");
            verdict(c, "setUsername(" + (nul ? "null" : q(x)) + ")", r, nul || blank(x));
            if (!r) m[0] = x;
            break;
        }
        case 1: {
            val::Buf b(y); bool nul = Null && s.chance(1, 8);
            bool r = refused(c, "setPassword", [&]() { o->setPassword(nul ? nullptr : b.p); });
            c.d(" setPassword(" + (nul ? "null" : q(y)) + ")");
            verdict(c, "setPassword(" + (nul ? "null" : q(y)) + ")", r, nul || y.empty());
            if (!r) m[1] = y;
            break;
        }
        default: alias(s, c, *o, m);
        }
        if (o) val::same(c, val::obs(*o), m, "credential after the call");
    }
}
static void values(pbt::Src &s, pbt::Ctx &c) {
    switch (s.range(0, 4)) {
    case 0: {   // attachment paths
        std::string x = arg(s);
        c.d("Attachment(" + q(x) + ")");
        bool j = refused(c, "Attachment", [&]() { J::Attachment a(x.c_str(), "n"); val::same(c, val::obs(a), {x, "n", ""}, "attachment"); });
        verdict(c, "attachment path " + q(x), j, blank(x));
        bool p = refused(c, "cpp::Attachment", [&]() { P::Attachment a(x, "n", "c"); val::same(c, val::obs(a), {x, "n", "c"}, "attachment"); });
        verdict(c, "cpp attachment path " + q(x), p, blank(x));
        break;
    }
    case 1: {   // addresses: clearly good and clearly bad ones (the exact grammar is C22's)
        bool bad = s.chance(1, 2);
        static const std::vector<std::string> b{"", " ", "\t\r\n", "a", "@", "a@", "@example.com", "a b c", "plain.example.com", "a@b", "..@example.com", "a@example.c", "a@example.abcde1"};
        std::string e = bad ? s.pick(b) : model::gen_email(s);
        c.d("MessageAddress(" + q(e) + ")");
        verdict(c, "address " + q(e), refused(c, "MessageAddress", [&]() { J::MessageAddress a(e.c_str(), "n"); val::same(c, val::obs(a), {e, "n"}, "address"); }), bad);
        verdict(c, "cpp address " + q(e), refused(c, "MessageAddress", [&]() { P::MessageAddress a(e, "n"); val::same(c, val::obs(a), {e, "n"}, "address"); }), bad);
        break;
    }
    case 2: {   // the C++ messages insist on a To recipient
        bool none = s.chance(1, 2);
        std::vector<P::MessageAddress> to, cc;
        P::MessageAddress f("a@example.com");
        if (!none) to.push_back(f);
        if (s.chance(1, 2)) cc.push_back(f);
        c.d(none ? "message without To" : "message with To");
        if (s.chance(1, 2)) verdict(c, "cpp::PlaintextMessage recipient list", refused(c, "message", [&]() { P::PlaintextMessage m(f, to, "s", "b", cc); }), none);
        else verdict(c, "cpp::HTMLMessage recipient list", refused(c, "message", [&]() { P::HTMLMessage m(f, to, "s", "b", cc); }), none);
        break;
    }
    default: {  // an attachment's content id set from its own parts
        std::string id = val::text(s);
        J::Attachment a("file.txt", "name", id.c_str());
        c.d("setContentId(own)");
        size_t off = id.empty() ? 0 : s.index(id.size());
        a.setContentId(a.getContentId() + off);
        val::same(c, val::obs(a), {"file.txt", "name", id.substr(off)}, "attachment after setContentId(own content id)");
        a.setContentId(a.getName());
        val::same(c, val::obs(a), {"file.txt", "name", "name"}, "attachment after setContentId(own name)");
        c.label("self alias");
    }
    }
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    switch (s.weighted({5, 2, 2, 3})) {
    case 0: clients(s, c); c.label("clients"); break;
    case 1: credentials<J::Credential, true>(s, c); c.label("credentials"); break;
    case 2: credentials<P::Credential, false>(s, c); c.label("credentials"); break;
    default: values(s, c); c.label("values");
    }
    c.nontrivial = true;
}
namespace pbt {
Property property{"C26",
    "A case is a sequence of valid and invalid constructions and setter calls on one client or credential (arguments: words, empty, every kind and mix of white space, white space around one odd byte, null in the C interface, the object's own values), or one construction of an attachment, address or message; "
    "after every call the outcome and all getters are compared with the model. Every case is non-trivial.",
    run, 500000, 5000000};
}
