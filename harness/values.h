// Model-based machine over pools of value objects (addresses, attachments, credentials, error objects, messages).
// An object is modelled by the list of texts its getters must report.
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "engine.h"
#include "model.h"
#include "tables.h"
#include "src/attachment.h"
#include "src/credential.h"
#include "src/errorresolver.h"
#include "src/messageaddress.h"
#include "src/plaintextmessage.h"
#include "src/htmlmessage.h"
#include "src/cpp/attachment.hpp"
#include "src/cpp/credential.hpp"
#include "src/cpp/messageaddress.hpp"
#include "src/cpp/plaintextmessage.hpp"
#include "src/cpp/htmlmessage.hpp"

namespace val {
namespace J = jed_utils;
namespace P = jed_utils::cpp;
typedef std::vector<std::string> Obs;

// A text whose buffer is overwritten and released after use, so that objects that kept it are found out.
struct Buf {
    char *p;
    size_t n;
    explicit Buf(const std::string &s) : p(new char[s.size() + 1]), n(s.size() + 1) { memcpy(p, s.c_str(), n); }
    ~Buf() { memset(p, '#', n); delete[] p; }
    Buf(const Buf &) = delete;
    operator const char *() const { return p; }
};
inline std::string text(pbt::Src &s, size_t max = 40) {
    switch (s.weighted({3, 2, 2, 1, 1})) {
    case 0: return model::gen_word(s, 6);
    case 1: return "";
    case 2: { std::string b = model::gen_bytes(s, max, false); return b; }
    case 3: return std::string(s.chance(1, 60) ? static_cast<size_t>(65536 * s.range(1, 2) + s.range(-3, 300)) : static_cast<size_t>(s.range(1, 3000)), static_cast<char>('a' + s.index(3)));
    default: return "\xc3\xa9 " + model::gen_word(s, 4) + "\xe6\x97\xa5";
    }
}
// Now and then one field repeats another (display name = address, content id = name, password = user name...).
inline void relate_fields(pbt::Src &s, Obs &m, size_t n) {
    if (!s.chance(1, 6)) return;
    size_t to = 1 + s.index(n - 1);
    m[to] = m[s.index(to)];
}
inline std::string nonblank(pbt::Src &s) { return "u" + text(s); }

inline Obs obs(const J::MessageAddress &o) { return {o.getEmailAddress(), o.getDisplayName()}; }
inline Obs obs(const P::MessageAddress &o) { return {o.getEmailAddress(), o.getDisplayName()}; }
inline Obs obs(const J::Attachment &o) { return {o.getFilename(), o.getName(), o.getContentId()}; }
inline Obs obs(const P::Attachment &o) { return {o.getFilename(), o.getName(), o.getContentId()}; }
inline Obs obs(const J::Credential &o) { return {o.getUsername(), o.getPassword(), std::to_string(static_cast<int>(o.getRecommendedAuthOption()))}; }
inline Obs obs(const P::Credential &o) { return {o.getUsername(), o.getPassword(), std::to_string(static_cast<int>(o.getRecommendedAuthOption()))}; }
inline Obs obs(const J::ErrorResolver &o) { return {std::to_string(o.getErrorCode()), o.getErrorMessage()}; }
inline void cat(Obs &o, const char *tag, const Obs &x) { o.push_back(tag); o.insert(o.end(), x.begin(), x.end()); }
inline Obs obs(const J::Message &o) {
    Obs r{o.getMimeType(), o.getSubject(), o.getBody()};
    cat(r, "from", obs(o.getFrom()));
    for (size_t i = 0; i < o.getToCount(); i++) cat(r, "to", obs(*o.getTo()[i]));
    for (size_t i = 0; i < o.getCcCount(); i++) cat(r, "cc", obs(*o.getCc()[i]));
    for (size_t i = 0; i < o.getBccCount(); i++) cat(r, "bcc", obs(*o.getBcc()[i]));
    for (size_t i = 0; i < o.getAttachmentsCount(); i++) cat(r, "att", obs(*o.getAttachments()[i]));
    r.push_back(pbt::strf("%zu/%zu/%zu/%zu", o.getToCount(), o.getCcCount(), o.getBccCount(), o.getAttachmentsCount()));
    return r;
}
inline Obs obs(const P::Message &o) {
    Obs r{o.getMimeType(), o.getSubject(), o.getBody()};
    cat(r, "from", obs(o.getFrom()));
    for (auto &a : o.getTo()) cat(r, "to", obs(a));
    for (auto &a : o.getCc()) cat(r, "cc", obs(a));
    for (auto &a : o.getBcc()) cat(r, "bcc", obs(a));
    for (auto &a : o.getAttachments()) cat(r, "att", obs(a));
    r.push_back(pbt::strf("%zu/%zu/%zu/%zu", o.getToCount(), o.getCcCount(), o.getBccCount(), o.getAttachmentsCount()));
    return r;
}

// ---- construction: returns the object and its model
inline std::unique_ptr<J::MessageAddress> make(pbt::Src &s, Obs &m, J::MessageAddress *) {
    m = {model::gen_email(s), text(s)};
    relate_fields(s, m, 2);
    Buf a(m[0]), b(m[1]);
    if (m[1].empty() && s.chance(1, 2)) return std::unique_ptr<J::MessageAddress>(new J::MessageAddress(a));
    return std::unique_ptr<J::MessageAddress>(new J::MessageAddress(a, b));
}
inline std::unique_ptr<P::MessageAddress> make(pbt::Src &s, Obs &m, P::MessageAddress *) {
    m = {model::gen_email(s), text(s)};
    relate_fields(s, m, 2);
    return std::unique_ptr<P::MessageAddress>(new P::MessageAddress(m[0], m[1]));
}
inline std::unique_ptr<J::Attachment> make(pbt::Src &s, Obs &m, J::Attachment *) {
    m = {nonblank(s), text(s), text(s)};
    relate_fields(s, m, 3);
    Buf a(m[0]), b(m[1]), c(m[2]);
    return std::unique_ptr<J::Attachment>(new J::Attachment(a, b, c));
}
inline std::unique_ptr<P::Attachment> make(pbt::Src &s, Obs &m, P::Attachment *) {
    m = {nonblank(s), text(s), text(s)};
    relate_fields(s, m, 3);
    return std::unique_ptr<P::Attachment>(new P::Attachment(m[0], m[1], m[2]));
}
template <class C> std::unique_ptr<C> make_cred(pbt::Src &s, Obs &m) {
    int k = static_cast<int>(s.range(0, 3));
    m = {nonblank(s), nonblank(s), std::to_string(k)};
    relate_fields(s, m, 2);
    Buf a(m[0]), b(m[1]);
    if (k == 0 && s.chance(1, 2)) return std::unique_ptr<C>(new C(a.p, b.p));
    return std::unique_ptr<C>(new C(a.p, b.p, static_cast<J::RecommendedAuthenticationMethod>(k)));
}
inline std::unique_ptr<J::Credential> make(pbt::Src &s, Obs &m, J::Credential *) { return make_cred<J::Credential>(s, m); }
inline std::unique_ptr<P::Credential> make(pbt::Src &s, Obs &m, P::Credential *) { return make_cred<P::Credential>(s, m); }
inline std::unique_ptr<J::ErrorResolver> make(pbt::Src &s, Obs &m, J::ErrorResolver *) {
    int code = s.chance(1, 3) ? static_cast<int>(s.range(-130, 600)) : kMessages[s.index(kMessages.size())].first;
    std::string t = kUnknownMessage;
    for (auto &x : kMessages) if (x.first == code) t = x.second;
    m = {std::to_string(code), t};
    return std::unique_ptr<J::ErrorResolver>(new J::ErrorResolver(code));
}
struct Shape { std::vector<Obs> to, cc, bcc, att; Obs from; std::string subject, body; };
inline Shape shape(pbt::Src &s, size_t min_to) {
    Shape h;
    std::vector<Obs> seen;
    auto addr = [&]() {
        Obs m{model::gen_email(s), s.chance(1, 2) ? text(s, 12) : ""};
        if (!seen.empty() && s.chance(1, 8)) m = seen[s.index(seen.size())];     // the same person again
        else if (!seen.empty() && s.chance(1, 10)) m[s.index(2)] = seen[s.index(seen.size())][0];
        relate_fields(s, m, 2);
        seen.push_back(m);
        return m;
    };
    h.from = addr();
    auto lst = [&](std::vector<Obs> &v, size_t lo) { size_t n = lo + s.weighted({3, 3, 2, 1}); bool many = s.chance(1, 60); if (many) n = static_cast<size_t>(s.range(20, 300)); for (size_t i = 0; i < n; i++) v.push_back(many ? Obs{pbt::strf("u%zu@example.com", i), i % 5 ? "" : "N"} : addr()); };
    lst(h.to, min_to); lst(h.cc, 0); lst(h.bcc, 0);
    size_t n = s.weighted({4, 3, 2});
    if (s.chance(1, 80)) for (int64_t k = s.range(5, 600); k > 0; k--) h.att.push_back(Obs{pbt::strf("f%d.txt", static_cast<int>(k)), k % 3 ? "" : "N", k % 7 ? "" : "id"});
    for (size_t i = 0; i < n; i++) { h.att.push_back(Obs{nonblank(s), text(s, 12), text(s, 12)}); relate_fields(s, h.att.back(), 3); }
    h.subject = text(s); h.body = text(s, 200);
    if (s.chance(1, 12)) h.body = h.subject;
    return h;
}
inline Obs model_of(const Shape &h, const char *mime) {
    Obs r{mime, h.subject, h.body};
    cat(r, "from", h.from);
    for (auto &a : h.to) cat(r, "to", a);
    for (auto &a : h.cc) cat(r, "cc", a);
    for (auto &a : h.bcc) cat(r, "bcc", a);
    for (auto &a : h.att) cat(r, "att", a);
    r.push_back(pbt::strf("%zu/%zu/%zu/%zu", h.to.size(), h.cc.size(), h.bcc.size(), h.att.size()));
    return r;
}
template <class M> std::unique_ptr<M> make_msg(pbt::Src &s, Obs &m, const char *mime) {
    Shape h = shape(s, 0);
    auto lst = [](const std::vector<Obs> &v) { std::vector<J::MessageAddress> r; for (auto &a : v) r.emplace_back(a[0].c_str(), a[1].c_str()); return r; };
    std::vector<J::Attachment> at;
    for (auto &a : h.att) at.emplace_back(a[0].c_str(), a[1].c_str(), a[2].c_str());
    bool null_subject = s.chance(1, 8), null_body = s.chance(1, 8);
    if (null_subject) h.subject.clear();
    if (null_body) h.body.clear();
    m = model_of(h, mime);
    std::vector<J::MessageAddress> to = lst(h.to), cc = lst(h.cc), bcc = lst(h.bcc);
    J::MessageAddress from(h.from[0].c_str(), h.from[1].c_str());
    Buf sub(h.subject), body(h.body);
    const char *ps = null_subject ? nullptr : sub.p, *pb = null_body ? nullptr : body.p;
    // an empty list may be given as null or as an array of no elements
    bool z = s.chance(1, 2);
    J::MessageAddress none("none@example.com");
    J::Attachment noatt("none");
    if (h.to.size() == 1 && h.cc.size() <= 1 && h.bcc.size() <= 1 && s.chance(1, 2))
        return std::unique_ptr<M>(new M(from, to[0], ps, pb, cc.empty() ? nullptr : &cc[0], bcc.empty() ? nullptr : &bcc[0], at.empty() ? nullptr : at.data(), at.size()));
    return std::unique_ptr<M>(new M(from, to.empty() ? (z ? &none : nullptr) : to.data(), to.size(), ps, pb, cc.empty() ? (z ? &none : nullptr) : cc.data(), cc.size(),
                                    bcc.empty() ? (z ? &none : nullptr) : bcc.data(), bcc.size(), at.empty() ? (z ? &noatt : nullptr) : at.data(), at.size()));
}
template <class M> std::unique_ptr<M> make_pmsg(pbt::Src &s, Obs &m, const char *mime) {
    Shape h = shape(s, 1);
    m = model_of(h, mime);
    auto lst = [](const std::vector<Obs> &v) { std::vector<P::MessageAddress> r; for (auto &a : v) r.emplace_back(a[0], a[1]); return r; };
    std::vector<P::Attachment> at;
    for (auto &a : h.att) at.emplace_back(a[0], a[1], a[2]);
    return std::unique_ptr<M>(new M(P::MessageAddress(h.from[0], h.from[1]), lst(h.to), h.subject, h.body, lst(h.cc), lst(h.bcc), at));
}
inline std::unique_ptr<J::PlaintextMessage> make(pbt::Src &s, Obs &m, J::PlaintextMessage *) { return make_msg<J::PlaintextMessage>(s, m, "text/plain"); }
inline std::unique_ptr<J::HTMLMessage> make(pbt::Src &s, Obs &m, J::HTMLMessage *) { return make_msg<J::HTMLMessage>(s, m, "text/html"); }
inline std::unique_ptr<P::PlaintextMessage> make(pbt::Src &s, Obs &m, P::PlaintextMessage *) { return make_pmsg<P::PlaintextMessage>(s, m, "text/plain"); }
inline std::unique_ptr<P::HTMLMessage> make(pbt::Src &s, Obs &m, P::HTMLMessage *) { return make_pmsg<P::HTMLMessage>(s, m, "text/html"); }

// ---- setters
template <class T> const char *mutate(pbt::Src &, T &, Obs &) { return nullptr; }
template <class T> const char *set_cid(pbt::Src &s, T &o, Obs &m) {
    switch (s.index(8)) {       // values taken from the object itself
    case 0: o.setContentId(o.getContentId()); return "setContentId(own)";
    case 1: o.setContentId(o.getName()); m[2] = m[1]; return "setContentId(own name)";
    case 2: o.setContentId(o.getFilename()); m[2] = m[0]; return "setContentId(own file name)";
    default: break;
    }
    m[2] = text(s); Buf b(m[2]); o.setContentId(b.p); return "setContentId"; }
inline const char *mutate(pbt::Src &s, J::Attachment &o, Obs &m) { return set_cid(s, o, m); }
inline const char *mutate(pbt::Src &s, P::Attachment &o, Obs &m) { return set_cid(s, o, m); }
template <class T> const char *set_cred(pbt::Src &s, T &o, Obs &m) {
    switch (s.range(0, 6)) {
    case 3: o.setUsername(o.getUsername()); return "setUsername(own)";
    case 4: o.setPassword(o.getPassword()); return "setPassword(own)";
    case 5: o.setUsername(o.getPassword()); m[0] = m[1]; return "setUsername(own password)";
    case 6: o.setPassword(o.getUsername()); m[1] = m[0]; return "setPassword(own user name)";
    case 0: { m[0] = nonblank(s); Buf b(m[0]); o.setUsername(b.p); return "setUsername"; }
    case 1: { m[1] = nonblank(s); Buf b(m[1]); o.setPassword(b.p); return "setPassword"; }
    default: { int k = static_cast<int>(s.range(0, 3)); m[2] = std::to_string(k); o.setRecommendedAuthOption(static_cast<J::RecommendedAuthenticationMethod>(k)); return "setRecommendedAuthOption"; }
    }
}
inline const char *mutate(pbt::Src &s, J::Credential &o, Obs &m) { return set_cred(s, o, m); }
inline const char *mutate(pbt::Src &s, P::Credential &o, Obs &m) { return set_cred(s, o, m); }

// ---- cross-object relations
template <class T> void relate(pbt::Ctx &, const T &, const Obs &, const T &, const Obs &) {}
template <class T> void relate_addr(pbt::Ctx &c, const T &a, const Obs &ma, const T &b, const Obs &mb) {
    bool want = ma == mb;
    c.check((a == b) == want, "equality", "operator== says " + std::string(a == b ? "equal" : "different") + " for <" + pbt::esc(ma[0], 60) + "> \"" + pbt::esc(ma[1], 60) + "\" and <" + pbt::esc(mb[0], 60) + "> \"" + pbt::esc(mb[1], 60) + "\"");
    c.check((b == a) == want, "equality", "operator== is not symmetric");
}
inline void relate(pbt::Ctx &c, const J::MessageAddress &a, const Obs &ma, const J::MessageAddress &b, const Obs &mb) { relate_addr(c, a, ma, b, mb); }
inline void relate(pbt::Ctx &c, const P::MessageAddress &a, const Obs &ma, const P::MessageAddress &b, const Obs &mb) { relate_addr(c, a, ma, b, mb); }
template <class T> void convert(pbt::Ctx &, const T &, const Obs &) {}
inline void same(pbt::Ctx &c, const Obs &got, const Obs &want, const std::string &what) {
    if (got == want) return;
    std::string e = what;
    for (size_t i = 0; i < got.size() || i < want.size(); i++)
        if (i >= got.size() || i >= want.size() || got[i] != want[i]) {
            e += pbt::strf(": value %zu is ", i) + (i < got.size() ? "\"" + pbt::esc(got[i], 100) + "\"" : "missing") + ", expected " + (i < want.size() ? "\"" + pbt::esc(want[i], 100) + "\"" : "none");
            break;
        }
    c.fail("value", e);
}
inline void convert(pbt::Ctx &c, const P::PlaintextMessage &o, const Obs &m) { J::PlaintextMessage j = o; same(c, obs(j), m, "converted message"); }
inline void convert(pbt::Ctx &c, const P::HTMLMessage &o, const Obs &m) { J::HTMLMessage j = o; same(c, obs(j), m, "converted message"); }
inline void convert(pbt::Ctx &c, const P::MessageAddress &o, const Obs &m) { same(c, obs(o.toStdMessageAddress()), m, "converted address"); }
inline void convert(pbt::Ctx &c, const P::Attachment &o, const Obs &m) { same(c, obs(o.toStdAttachment()), m, "converted attachment"); }

struct Stats { unsigned ops = 0, assigns = 0, moves = 0; };

// One history over a pool of objects of one class.
template <class T> Stats history(pbt::Src &s, pbt::Ctx &c, const char *cls, size_t max_ops) {
    struct Slot { std::unique_ptr<T> o; Obs m; bool moved = false; };
    Slot slot[4];
    Stats st;
    c.d(std::string(cls) + ":");
    auto verify = [&](const char *op) {
        for (int i = 0; i < 4; i++)
            if (slot[i].o && !slot[i].moved) same(c, obs(*slot[i].o), slot[i].m, pbt::strf("%s object %d after %s", cls, i, op));
    };
    size_t n = 2 + s.index(max_ops);
    for (size_t k = 0; k < 2; k++) slot[k].o = make(s, slot[k].m, static_cast<T *>(nullptr));
    verify("make");
    for (size_t k = 0; k < n; k++) {
        size_t i = s.index(4), j = s.index(4);
        if (i == j) j = (i + 1) % 4;
        Slot &a = slot[i], &b = slot[j];
        const char *op = "";
        switch (s.weighted({5, 4, 3, 5, 4, 2, 3, 2, 2, 1})) {
        case 0: a.o = make(s, a.m, static_cast<T *>(nullptr)); a.moved = false; op = "make"; break;
        case 1:
            if (!b.o || b.moved) continue;
            a.o.reset(new T(*b.o)); a.m = b.m; a.moved = false; op = "copy-construct"; break;
        case 2:
            if (!b.o || b.moved) continue;
            a.o.reset(new T(std::move(*b.o))); a.m = b.m; a.moved = false; b.moved = true; st.moves++; op = "move-construct"; break;
        case 3:
            if (!a.o || !b.o || b.moved) continue;
            *a.o = *b.o; a.m = b.m; a.moved = false; st.assigns++; op = "assign"; break;
        case 4:
            if (!a.o || !b.o || b.moved) continue;
            *a.o = std::move(*b.o); a.m = b.m; a.moved = false; b.moved = true; st.moves++; st.assigns++; op = "move-assign"; break;
        case 5:
            if (!a.o || a.moved) continue;
            { T &alias = *a.o; *a.o = alias; } op = "self-assign"; break;
        case 6: { if (!a.o || a.moved) continue; op = mutate(s, *a.o, a.m); if (!op) continue; break; }
        case 7: if (!a.o) continue; a.o.reset(); op = "destroy"; break;
        case 8: if (!a.o || a.moved) continue; convert(c, *a.o, a.m); op = "convert"; break;
        default: {
            // swap through a temporary
            if (!a.o || !b.o || a.moved || b.moved) continue;
            T t(std::move(*a.o)); *a.o = std::move(*b.o); *b.o = std::move(t); std::swap(a.m, b.m); st.moves++; op = "swap";
        }
        }
        st.ops++;
        c.d(pbt::strf(" %s(%zu,%zu)", op, i, j));
        verify(op);
        if (a.o && b.o && !a.moved && !b.moved) relate(c, *a.o, a.m, *b.o, b.m);
    }
    if (s.chance(1, 2)) for (int i = 3; i >= 0; i--) { slot[i].o.reset(); verify("destroy"); }
    return st;
}
inline Stats any_history(pbt::Src &s, pbt::Ctx &c, size_t max_ops) {
    size_t which = s.index(11);
    static const char *names[] = {"MessageAddress", "cpp::MessageAddress", "Attachment", "cpp::Attachment", "Credential", "cpp::Credential", "ErrorResolver", "PlaintextMessage", "HTMLMessage", "cpp::PlaintextMessage", "cpp::HTMLMessage"};
    c.label(names[which]);
    switch (which) {
    case 0: return history<J::MessageAddress>(s, c, names[which], max_ops);
    case 1: return history<P::MessageAddress>(s, c, names[which], max_ops);
    case 2: return history<J::Attachment>(s, c, names[which], max_ops);
    case 3: return history<P::Attachment>(s, c, names[which], max_ops);
    case 4: return history<J::Credential>(s, c, names[which], max_ops);
    case 5: return history<P::Credential>(s, c, names[which], max_ops);
    case 6: return history<J::ErrorResolver>(s, c, names[which], max_ops);
    case 7: return history<J::PlaintextMessage>(s, c, names[which], max_ops);
    case 8: return history<J::HTMLMessage>(s, c, names[which], max_ops);
    case 9: return history<P::PlaintextMessage>(s, c, names[which], max_ops);
    default: return history<P::HTMLMessage>(s, c, names[which], max_ops);
    }
}
}  // namespace val
