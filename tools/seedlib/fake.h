// A small scripted SMTP server on the loopback network, for demonstrations.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

struct Session {
    std::vector<std::string> lines;  // commands received in clear
    std::vector<std::string> tlsLines;  // commands received inside TLS
    std::vector<std::string> mails;  // raw content up to the line that holds a single dot
    bool closedByClient = false;
};

struct Identity { EVP_PKEY *key; X509 *cert; };

inline X509 *makeCert(EVP_PKEY *key, const char *cn, EVP_PKEY *issuerKey, X509 *issuer, bool ca) {
    X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), ca ? 1 : 2);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400);
    X509_gmtime_adj(X509_getm_notAfter(x), 864000);
    X509_set_pubkey(x, key);
    X509_NAME *n = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char *>(cn), -1, -1, 0);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n);
    if (ca) {
        X509V3_CTX c;
        X509V3_set_ctx(&c, issuer ? issuer : x, x, nullptr, nullptr, 0);
        X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &c, NID_basic_constraints, "critical,CA:TRUE");
        X509_add_ext(x, e, -1);
        X509_EXTENSION_free(e);
    }
    X509_sign(x, issuerKey ? issuerKey : key, EVP_sha256());
    return x;
}

class Fake {
 public:
    enum Tls { Clear, StartTls, Implicit };
    Tls tls = Clear;
    bool privateCa = false;  // certificate signed by an authority nobody trusts (sent along)
    std::string greeting = "220 ready\r\n";
    std::string ehlo = "250-fake\r\n250 8BITMIME\r\n";
    // gives the reply to a line; "" = the default one; "!" = close the connection
    std::function<std::string(int, const std::string &)> reply;
    std::vector<Session> sessions;
    int port = 0;

    ~Fake() { stop(); }
    void start() {
        signal(SIGPIPE, SIG_IGN);
        mListen = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a {};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        bind(mListen, reinterpret_cast<sockaddr *>(&a), sizeof a);
        socklen_t l = sizeof a;
        getsockname(mListen, reinterpret_cast<sockaddr *>(&a), &l);
        port = ntohs(a.sin_port);
        listen(mListen, 16);
        if (tls != Clear) {
            makeContext();
        }
        mThread = std::thread([this] { acceptLoop(); });
    }
    // waits until every connection has ended and returns what was received
    std::vector<Session> stop() {
        if (mThread.joinable()) {
            ::shutdown(mListen, SHUT_RDWR);
            mThread.join();
            for (auto &t : mWorkers) {
                t.join();
            }
            mWorkers.clear();
            close(mListen);
            SSL_CTX_free(mCtx);
            mCtx = nullptr;
        }
        return sessions;
    }

 private:
    int mListen = -1;
    std::thread mThread;
    std::vector<std::thread> mWorkers;
    std::mutex mMutex;
    SSL_CTX *mCtx = nullptr;

    void makeContext() {
        EVP_PKEY *key = EVP_EC_gen("P-256");
        mCtx = SSL_CTX_new(TLS_server_method());
        if (privateCa) {
            EVP_PKEY *caKey = EVP_EC_gen("P-256");
            X509 *ca = makeCert(caKey, "Private CA", nullptr, nullptr, true);
            X509 *cert = makeCert(key, "127.0.0.1", caKey, ca, false);
            SSL_CTX_use_certificate(mCtx, cert);
            SSL_CTX_add_extra_chain_cert(mCtx, ca);
            X509_free(cert);
            EVP_PKEY_free(caKey);
        } else {
            X509 *cert = makeCert(key, "127.0.0.1", nullptr, nullptr, false);
            SSL_CTX_use_certificate(mCtx, cert);
            X509_free(cert);
        }
        SSL_CTX_use_PrivateKey(mCtx, key);
        EVP_PKEY_free(key);
    }
    void acceptLoop() {
        for (;;) {
            int fd = accept(mListen, nullptr, nullptr);
            if (fd < 0) {
                return;
            }
            std::lock_guard<std::mutex> g(mMutex);
            int id = static_cast<int>(sessions.size());
            sessions.emplace_back();
            mWorkers.emplace_back([this, fd, id] { serve(fd, id); });
        }
    }
    struct Stream {
        int fd;
        SSL *ssl = nullptr;
        std::string in;
        bool write(const std::string &s) {
            return s.empty() || (ssl ? SSL_write(ssl, s.data(), static_cast<int>(s.size())) > 0
                                     : send(fd, s.data(), s.size(), MSG_NOSIGNAL) == static_cast<ssize_t>(s.size()));
        }
        bool until(const std::string &end, std::string &out) {
            size_t p;
            while ((p = in.find(end)) == std::string::npos) {
                char b[4096];
                ssize_t n = ssl ? SSL_read(ssl, b, sizeof b) : recv(fd, b, sizeof b, 0);
                if (n <= 0) {
                    return false;
                }
                in.append(b, static_cast<size_t>(n));
            }
            out = in.substr(0, p);
            in.erase(0, p + end.size());
            return true;
        }
    };
    void serve(int fd, int id) {
        Stream s {fd};
        auto startTls = [&] {
            s.ssl = SSL_new(mCtx);
            SSL_set_fd(s.ssl, fd);
            return SSL_accept(s.ssl) == 1;
        };
        bool ok = tls != Implicit || startTls();
        ok = ok && s.write(greeting);
        std::string line;
        while (ok) {
            if (!s.until("\r\n", line)) {
                std::lock_guard<std::mutex> g(mMutex);
                sessions[id].closedByClient = true;
                break;
            }
            {
                std::lock_guard<std::mutex> g(mMutex);
                (s.ssl ? sessions[id].tlsLines : sessions[id].lines).push_back(line);
            }
            std::string r = reply ? reply(id, line) : "";
            const std::string verb = line.substr(0, 4);
            if (r == "!") {
                break;
            }
            if (verb == "ehlo" || verb == "EHLO") {
                r = r.empty() ? ehlo : r;
            } else if (verb == "DATA") {
                r = r.empty() ? "354 go\r\n" : r;
            } else if (verb == "STAR") {
                r = r.empty() ? "220 go\r\n" : r;
            } else if (verb == "AUTH") {
                r = r.empty() ? "235 ok\r\n" : r;
            } else if (verb == "QUIT") {
                s.write("221 bye\r\n");
                break;
            }
            ok = s.write(r.empty() ? "250 ok\r\n" : r);
            if (ok && verb == "STAR" && r[0] == '2') {
                s.in.clear();
                ok = startTls();
            }
            if (ok && verb == "DATA" && r[0] == '3') {
                std::string mail;
                if (!s.until("\r\n.\r\n", mail)) {
                    break;
                }
                {
                    std::lock_guard<std::mutex> g(mMutex);
                    sessions[id].mails.push_back(mail);
                }
                std::string e = reply ? reply(id, "<mail>") : "";
                if (e == "!") {
                    break;
                }
                ok = s.write(e.empty() ? "250 queued\r\n" : e);
            }
        }
        if (s.ssl) {
            SSL_free(s.ssl);
        }
        close(fd);
    }
};

inline int fail(const char *text) {
    fprintf(stderr, "DEMO FAILS: %s\n", text);
    fflush(nullptr);
    _exit(1);
}
inline bool has(const std::string &s, const std::string &part) { return s.find(part) != std::string::npos; }
