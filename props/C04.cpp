// C04: attachments arrive byte for byte, with their name, type and content id.
#include "common.h"
#include "tables.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace model;

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    MsgOpts o;
    o.max_rcpt = 1; o.max_atts = 0; o.max_body = 900; o.wild_body = s.chance(1, 2);
    Msg m = gen_msg(s, c, o);
    bool many = s.chance(1, 250), huge = s.chance(1, 250), big = s.chance(1, 6);
    size_t n = static_cast<size_t>(many ? s.range(15, 140) : s.range(1, s.chance(1, 12) ? 12 : 4));
    if (many) { c.label("many attachments"); big = false; }
    for (size_t i = 0; i < n; i++) {
        Att a;
        // extension: known, in any letter case, unknown or several dots
        std::string ext = s.pick(kMime).first, stem = gen_word(s, 8);
        for (char &ch : ext) if (s.chance(1, 4)) ch = static_cast<char>(toupper(static_cast<unsigned char>(ch)));
        a.mime.clear();
        for (auto &k : kMime) if (k.first == lower(ext)) { a.mime = k.second; break; }
        if (s.chance(1, 5)) stem += "." + s.pick(kMime).first;
        if (s.chance(1, 6)) stem += " " + gen_word(s, 4);
        a.path = c.scratch + "/" + std::to_string(i) + stem + "." + ext;
        if (i && s.chance(1, 8)) a = m.atts[s.index(i)];      // the same file twice
        else {
            int64_t len;
            static const std::vector<int64_t> marks{0, 1, 2, 3, 57, 383, 384, 385, 512, 1536, 49149, 49150, 49151, 49152, 49153, 49154, 98303, 98304, 98305};
            switch (s.weighted({3, 3, 3, big ? 4u : 0u})) {
            case 0: a.content = gen_bytes(s, 300, true); break;
            case 1: len = marks[s.index(11)]; a.content = std::string(static_cast<size_t>(len), static_cast<char>(s.byte())); break;
            case 2: a.content = gen_bytes(s, big ? 150000 : 6000, true); break;
            default: {
                len = s.pick(marks) + s.range(-3, 3);
                if (len < 0) len = 0;
                uint64_t x = s.bits(3) | 1;
                for (int64_t k = 0; k < len; k++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; a.content += static_cast<char>(x >> 56); }
            }
            }
            if (huge && i + 1 == n) {                 // one very large file, around powers of two
                static const std::vector<int64_t> sizes{200000, 262144, 524288, 1000000, 1048576, 2097152};
                size_t want = static_cast<size_t>(s.pick(sizes) + s.range(-3, 3));
                uint64_t x = s.bits(3) | 1;
                a.content.clear();
                while (a.content.size() < want) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; a.content += static_cast<char>(x >> 56); }
                c.label("huge file");
            }
            if (s.chance(1, 10)) a.content = "\r\n--sep--\r\n.\r\n" + a.content + "\r\n.\r\n";
            write_file(a.path, a.content);
        }
        switch (s.weighted({1, 4, 2, 1, 1, 2})) {
        case 0: a.name = ""; break;
        case 1: a.name = gen_word(s, 12) + "." + ext; break;
        case 2: a.name = gen_name(s, true); break;
        case 5: a.name = odd_file_name(s); break;
        case 3: a.name = "a \"quoted\\\" name;x=1.pdf"; break;
        default: a.name = "r\xc3\xa9sum\xc3\xa9 (1).doc";
        }
        a.cid = s.chance(1, 2) ? gen_word(s, 10) + (s.chance(1, 2) ? "@example.com" : "") : "";
        if (s.chance(1, 8)) a.cid = odd_content_id(s);
        m.atts.push_back(a);
    }
    c.d(show(m));
    c.nontrivial = n >= 2;
    for (auto &a : m.atts) if (a.content.size() >= 384 || a.content.empty()) c.nontrivial = true;
    if (big) c.label("large files");
    Net net;
    net.conf = [&](size_t, sim::Conn &) { return conf_for(who.kind); };
    net.install();
    auto cl = cm::make(who);
    bool batch = s.chance(1, 6);
    cl->set_batch(batch);
    int rc = cl->send(m);
    std::vector<srv::Mail> hold;
    size_t extra = 0;
    if (rc == 0 && !batch && s.chance(1, 5)) {
        o.max_atts = 3; o.max_file = s.chance(1, 3) ? 3000 : 60; o.max_body = 60;
        cl->set_batch(s.chance(1, 3));
        extra = cm::sequel(s, c, net, *cl, who, o, [](const Msg &x, const srv::Mail &y) { return check_attachments(x, parse_mail(y.data)); });
    }
    if (batch && rc == 0) rc = cl->send(m);        // the same objects can be sent again
    cl.reset();
    if (rc != 0) c.fail("not-sent", "sendMail returned " + std::to_string(rc) + "\n" + net.describe());
    hold = net.accepted();
    if (hold.size() != (batch ? 2u : 1u) + extra) c.fail("mail-count", std::to_string(hold.size()) + " mails accepted");
    hold.resize(batch ? 2 : 1);
    for (auto &d : hold) {
        Parsed p = parse_mail(d.data);
        std::string e = check_attachments(m, p);
        if (!e.empty()) c.fail("attachment", e);
        e = check_text(m, p);
        if (!e.empty()) c.fail("text", e);
    }
    for (auto &a : m.atts) unlink(a.path.c_str());
}
namespace pbt {
Property property{"C04", "several attachments, or one that is empty or at least 384 bytes long", run, 20000, 200000};
}
