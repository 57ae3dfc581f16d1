// Scripted SMTP server model (strict RFC 5321 dialogue, optional TLS through OpenSSL memory BIOs).
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "sim.h"

typedef struct ssl_st SSL;
typedef struct bio_st BIO;

namespace srv {

enum Step { GREETING, EHLO, STARTTLS, EHLO_TLS, AUTH, AUTH2, AUTH3, MAIL, RCPT, DATA, EOD, QUIT, OTHER, kSteps };
extern const char *step_names[kSteps];

enum Cert { kTrusted, kSelfSigned, kUntrustedCA, kExpired, kNotYetValid, kChain, kUntrustedChain, kWrongName, kSelfSignedExpired,
    kAlmostExpired, kJustExpired, kJustValid, kSoonValid, kExpiredIssuer, kNoIntermediate, kTwoIntermediates, kSignedByLeaf, kForgedIssuer, kRsa, kSelfSignedCa, kSelfSignedRsa, kSelfSignedChain, kCertCount };
extern const char *cert_names[kCertCount];

typedef std::vector<std::pair<int64_t, std::string>> Pieces;   // (delay before this piece, bytes)

struct Reply {
    std::string text;            // complete bytes, line endings included
    bool silent = false;         // say nothing
    bool fin = false;            // close afterwards
    bool rst = false;            // reset afterwards
    int64_t delay = 0;           // before the first byte
    bool complete = true;        // is text a complete well-formed reply? (for oracles)
};

struct Conf {
    bool implicit_tls = false;
    std::string greeting = "220 mail.example.com ESMTP\r\n";
    std::vector<std::string> ehlo{"SIZE 35882577", "8BITMIME"};        // keyword lines before TLS
    std::vector<std::string> ehlo_tls{"SIZE 35882577", "AUTH PLAIN LOGIN XOAUTH2"};
    std::string raw_ehlo, raw_ehlo_tls;                                  // complete replies replacing the above
    Cert cert = kTrusted;
    int tls_min = 0, tls_max = 0;                                        // 0 = library default (0x0303, 0x0304)
    enum TlsMode { kTlsOk, kTlsGarbage, kTlsSilent, kTlsClose, kTlsReset, kTlsCloseMid } tls_mode = kTlsOk;
    std::string inject_after_starttls;                                   // plaintext pushed right behind the 220
    int mail_form = 0;                                                   // accepted sender spelling (others get 501)
    std::function<bool(Step, int, Reply &)> on_step;                     // may replace the reply; int = occurrence number
    std::function<int(const std::string &mech, const std::string &user, const std::string &pass)> auth;  // reply code
    std::function<Pieces(const std::string &)> cut;                      // segmentation of every reply
    std::function<Pieces(const std::string &)> cut_cipher;               // segmentation of TLS bytes
    bool lenient_lf = false;                                             // accept bare LF as line end
    int64_t handshake_delay = 0;
};

struct Cmd { Step step; std::string line; bool tls; bool early; bool crlf; int code; int64_t at; };
struct Mail { std::string from; std::vector<std::string> rcpts; std::string data; bool tls; std::string user; bool accepted; int conn; };
struct Auth { std::string mech, user, pass, initial; bool ok; bool tls; bool wellformed; };
struct Rep { Step step; std::string text; int code; bool tls; };

class SmtpServer : public sim::Server {
 public:
    explicit SmtpServer(const Conf &c) : conf(c) {}
    ~SmtpServer() override;
    void on_connect(sim::Conn &c) override;
    void on_data(sim::Conn &c, const std::string &d) override;
    void on_close(sim::Conn &c) override;

    Conf conf;
    sim::Conn *conn = nullptr;
    int conn_id = -1;
    std::vector<Cmd> cmds;
    std::vector<Mail> mails;            // every completed DATA, with the verdict given
    std::vector<Auth> auths;
    std::vector<Rep> replies;
    std::vector<std::string> errors;    // protocol violations by the client
    std::string plain_in;               // client bytes outside TLS
    std::string app_in;                 // client application bytes (plain or decrypted)
    std::string tls_in;                 // decrypted bytes
    bool tls_started = false, tls_done = false, tls_failed = false;
    bool quit = false, client_closed = false;
    std::string leftover() const { return mBuf; }   // incomplete line at the end
    std::string partial_data() const { return mInData ? mData : ""; }

 private:
    void emit(Step s, Reply r);
    void put(const std::string &plain, int64_t delay);
    void start_tls();
    void pump_tls(const std::string &cipher);
    void flush_tls(int64_t delay = 0);
    void input(const std::string &d);
    void line(const std::string &l, bool crlf);
    void reply(Step s, const std::string &def, Reply *out = nullptr);
    bool replies_read() const;

    std::string mBuf;                   // unprocessed input
    size_t mScan = 0;                   // how far the end of the mail was looked for
    bool mTls = false;
    SSL *mSsl = nullptr; BIO *mIn = nullptr; BIO *mOut = nullptr;
    int mNth[kSteps] = {0};
    int mAuthStage = 0; std::string mAuthMech, mAuthUser;
    bool mHelo = false, mAuthed = false; std::string mUser;
    bool mHaveFrom = false; std::string mFrom; std::vector<std::string> mRcpts;
    bool mInData = false; std::string mData; std::string mWire;
    bool mEarly = false;
};

std::string b64dec(const std::string &s, bool *ok = nullptr);
std::string b64enc(const std::string &s);
int code_of(const std::string &reply);
void init();          // certificates, trust store environment

}  // namespace srv
