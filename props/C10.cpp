// C10: a TLS session is used only with a certificate the policy accepts.
#include "common.h"
using namespace model;

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {0, 1, 1});
    size_t sessions = static_cast<size_t>(s.weighted({2, 4, 3, 2})) + 1;
    Net net;
    srv::Cert cert = srv::kTrusted;
    int tls = 0;
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f = conf_for(who.kind);
        f.cert = cert;
        f.tls_min = f.tls_max = tls;
        if (s.chance(1, 3)) f.cut_cipher = [&s](const std::string &b) { return cm::cut(s, b, 6, 1000000); };
        return f;
    };
    net.install();
    auto cl = cm::make(who);
    bool flag = false, cred = false, batch = false, open = false;
    Cred k = cm::gen_cred(s);
    srv::Cert opened = srv::kTrusted;
    for (size_t i = 0; i < sessions; i++) {
        for (int64_t ops = s.weighted({2, 3, 2, 1}); ops > 0; ops--) {
            switch (s.weighted({4, 2, 2, 2, 1, 1, 1})) {
            case 0: flag = s.chance(1, 2); cl->set_accept_self_signed(flag); c.d(flag ? "accept self-signed; " : "refuse self-signed; "); break;
            case 1: if (!cred) { cl->set_cred(k); cred = true; c.d("credentials; "); } break;
            case 2: { auto o = cl->copy(); cl = std::move(o); open = false; c.d("copy; "); break; }
            case 3: { auto o = cl->move(); cl = std::move(o); c.d("move; "); break; }
            case 4: {
                auto o = cm::make(who, "other.example.com");
                o->set_accept_self_signed(s.chance(1, 2));
                bool mv = s.chance(1, 2);
                if (mv) o->assign_move(*cl); else { o->assign(*cl); open = false; }
                cl = std::move(o); c.d(mv ? "move-assign; " : "assign; "); break;
            }
            case 5: if (!open) { batch = s.chance(1, 2); cl->set_batch(batch); c.d(batch ? "batch; " : "no batch; "); } break;
            default: {
                auto o = cm::make(who, "other.example.com");
                bool f2 = s.chance(1, 2);
                o->set_accept_self_signed(f2);
                cl->assign(*o); flag = f2; cred = false; batch = false; open = false;
                c.d(f2 ? "assign one that accepts self-signed; " : "assign one that refuses self-signed; ");
            }
            }
        }
        if (cl->accept_self_signed() != flag) c.fail("flag", "the client reports another setting for self-signed certificates than was given");
        static const std::vector<srv::Cert> certs{srv::kTrusted, srv::kSelfSigned, srv::kUntrustedCA, srv::kExpired, srv::kNotYetValid, srv::kChain, srv::kUntrustedChain, srv::kSelfSignedExpired,
            srv::kAlmostExpired, srv::kJustExpired, srv::kJustValid, srv::kSoonValid, srv::kExpiredIssuer, srv::kNoIntermediate, srv::kTwoIntermediates, srv::kSignedByLeaf, srv::kForgedIssuer,
            srv::kRsa, srv::kSelfSignedCa, srv::kSelfSignedRsa, srv::kSelfSignedChain};
        cert = s.pick(certs);
        tls = s.weighted({2, 1, 1}) == 0 ? 0 : s.chance(1, 2) ? 0x0303 : 0x0304;
        bool reuse = open;
        srv::Cert eff = reuse ? opened : cert;
        static const std::set<srv::Cert> sound{srv::kTrusted, srv::kChain, srv::kAlmostExpired, srv::kJustValid, srv::kTwoIntermediates, srv::kRsa}, own{srv::kSelfSigned, srv::kSelfSignedCa, srv::kSelfSignedRsa, srv::kSelfSignedChain};
        bool good = sound.count(eff) || (own.count(eff) && flag);
        bool dont_care = !reuse && eff == srv::kSelfSignedExpired && flag;
        if (reuse) good = true;      // an established session goes on whatever the flag says now
        size_t acc = net.accepted().size(), conns = net.servers.size();
        Msg m = simple_msg();
        int rc = cl->send(m);
        c.d(pbt::strf("%s, TLS %s -> %d; ", reuse ? "open session" : srv::cert_names[cert], tls == 0x0303 ? "1.2" : tls == 0x0304 ? "1.3" : "any", rc));
        c.label(std::string(srv::cert_names[eff]) + (flag ? " accepting self-signed" : ""));
        if (!good || flag || eff != srv::kTrusted) c.nontrivial = true;
        bool delivered = net.accepted().size() == acc + 1;
        if (dont_care) {
            if ((rc == 0) != delivered) c.fail("result", pbt::strf("result %d for a mail that was %s\n", rc, delivered ? "delivered" : "not delivered") + net.describe());
            open = batch && rc == 0;
            if (open) opened = srv::kTrusted;
            continue;
        }
        if (good) {
            if (rc != 0 || !delivered) c.fail("not-delivered", pbt::strf("the certificate (%s) is acceptable but sendMail returned %d\n", srv::cert_names[eff], rc) + net.describe());
            if (!reuse && net.servers.size() != conns + 1) c.fail("connections", "the mail took " + std::to_string(net.servers.size() - conns) + " connections");
            for (auto &mail : net.accepted()) if (!mail.tls) c.fail("clear", "mail delivered outside TLS");
            open = batch;
            opened = srv::kTrusted;
        } else {
            auto &v = *net.servers.back();
            std::string in = std::string(srv::cert_names[eff]) + (flag ? ", self-signed certificates accepted" : "");
            if (rc == 0 || delivered) c.fail("accepted-bad-certificate", "mail sent to a server with this certificate: " + in + "\n" + net.describe());
            if (rc > -51 || rc < -58) c.fail("code", pbt::strf("sendMail returned %d, not one of the TLS error codes, for the certificate: ", rc) + in);
            if (!v.tls_in.empty()) c.fail("data-sent", "application data sent to a server with this certificate: " + in + "\n" + net.describe());
            if (v.app_in.find("secret") != std::string::npos || v.app_in.find("MAIL") != std::string::npos || v.app_in.find("AUTH") != std::string::npos) c.fail("data-sent", "commands sent outside TLS after the certificate was refused");
            open = false;
        }
    }
    cl.reset();
    cm::tidy(c);
}
namespace pbt {
Property property{"C10", "a certificate other than a directly trusted one, or self-signed certificates accepted", run, 10000, 90000};
}
