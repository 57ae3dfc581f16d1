# Table of planted bugs. Every entry becomes /verif/seeded/<id>/ (see tools/seeds.py).
SEEDS = []
B = "src/smtpclientbase.cpp"
PRE = '''#include "fake.h"
#include "src/smtpclient.h"
#include "src/opportunisticsecuresmtpclient.h"
#include "src/forcedsecuresmtpclient.h"
#include "src/plaintextmessage.h"
#include "src/htmlmessage.h"
#include "src/smtpclienterrors.h"
#include "src/socketerrors.h"
using namespace jed_utils;
'''

def seed(id, property, edits, demo, needs, breaks, **k):
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **k))

seed("crlf-straddles-chunk", "C01", (B, '''            size_t length = CHUNK_MAXLENGTH;
            if (index_start + CHUNK_MAXLENGTH > body_real.length() - 1) {
                length = body_real.length() - index_start;
            }
''', '''            size_t length = (std::min)(CHUNK_MAXLENGTH, body_real.length() - index_start);
            // Don't separate the two characters of a line ending
            if (body_real[index_start + length - 1] == '\\r') {
                length--;
            }
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    for (int n = 380; n < 560; n++) {
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", (std::string(n, 'x') + "\\r\\ntail").c_str());
        if (c.sendMail(m) != 0) fail("mail refused");
    }
    auto s = f.stop();
    for (size_t i = 0; i < s.size(); i++)
        if (s[i].mails.empty() || !has(s[i].mails[0], std::string(380 + i, 'x') + "\\r\\ntail")) fail("the text was altered");
}
''', "a CRLF of the encoded mail content that straddles a multiple of 512 bytes", "The CR of that line break is never sent: the text arrives with a bare LF.")

seed("last-byte-of-content", "C04", (B, '''        for (size_t index_start = 0; index_start < body_real.length(); index_start += CHUNK_MAXLENGTH) {''',
'''        for (size_t index_start = 0; index_start < body_real.length() - 1; index_start += CHUNK_MAXLENGTH) {'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    for (int n = 400; n < 1000; n++) {
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", std::string(n, 'x').c_str());
        if (c.sendMail(m) != 0) fail("mail refused");
    }
    for (auto &s : f.stop()) {
        const std::string &m = s.mails[0];
        const size_t p = m.find("boundary=");
        const std::string sep = m.substr(p + 9, m.find("\\r\\n", p) - p - 9);
        if (!has(m, "--" + sep + "--")) fail("the multipart is not closed");
    }
}
''', "an encoded mail content of 512k+1 bytes", "The last byte of the content, the end of the closing delimiter, is not sent.")

seed("bcc-as-destination", "C02", (B, '''    if (pMsg.getToCount() > 0) {
        std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
''', '''    // A mail needs at least one destination field
    const bool hasVisible = pMsg.getToCount() + pMsg.getCcCount() > 0;
    MessageAddress **toList = hasVisible ? pMsg.getTo() : pMsg.getBcc();
    const size_t toListCount = hasVisible ? pMsg.getToCount() : pMsg.getBccCount();
    if (toListCount > 0) {
        std::vector<MessageAddress*> toAddrs(toList, toList + toListCount);
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    MessageAddress bcc[] = {MessageAddress("hidden@d.com", "Hidden"), MessageAddress("other@d.com")};
    PlaintextMessage m(MessageAddress("a@b.com"), nullptr, 0, "s", "b", nullptr, 0, bcc, 2);
    if (c.sendMail(m) != 0) fail("mail refused");
    for (auto &s : f.stop())
        if (has(s.mails[0], "hidden@d.com") || has(s.mails[0], "Hidden")) fail("a blind copy recipient is disclosed");
}
''', "a message whose only recipients are Bcc", "The Bcc recipients are disclosed in the To header.")

seed("name-equal-to-address", "C03", ("src/messageaddress.cpp", "    if (display_name.empty()) {", "    if (display_name.empty() || display_name == mEmailAddress) {"), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com", "a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    for (auto &s : f.stop())
        if (!has(s.mails[0], "From: \\"a@b.com\\" <a@b.com>\\r\\n")) fail("the display name is lost");
}
''', "a display name identical to the address", "The display name is missing from the header.")

seed("end-of-mail-2xx", "C05", (B, "    if (end_data_ret_code != STATUS_CODE_REQUESTED_MAIL_ACTION_OK_OR_COMPLETED) {", "    if (end_data_ret_code / 100 != 2) {"), '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { return l == "<mail>" ? "252 will try\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) == 0) fail("reported as accepted");
}
''', "a server that answers the end of the mail with a 2xx code other than 250", "sendMail returns 0 although the mail was not accepted with 250.")

seed("later-list-hides-refusal", "C06", (B, '''    for (const auto &item : recipients) {
        if (item.first != nullptr) {
            int rcpt_to_ret_code = addMailRecipients(item.first, item.second, RECIPIENT_OK);
            if (rcpt_to_ret_code != RECIPIENT_OK) {
                return rcpt_to_ret_code;
            }
        }
    }
    return 0;
''', '''    int rcpt_to_ret_code { RECIPIENT_OK };
    for (const auto &item : recipients) {
        if (item.first != nullptr) {
            rcpt_to_ret_code = addMailRecipients(item.first, item.second, RECIPIENT_OK);
            if (rcpt_to_ret_code < 0) {
                break;
            }
        }
    }
    return rcpt_to_ret_code == RECIPIENT_OK ? 0 : rcpt_to_ret_code;
'''), '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { return l == "RCPT TO: <bad@d.com>" ? "550 no\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    MessageAddress cc("good@d.com");
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("bad@d.com"), "s", "b", &cc);
    c.sendMail(m);
    for (auto &s : f.stop())
        for (auto &l : s.lines)
            if (l == "DATA") fail("DATA after a refused recipient");
}
''', "a refused recipient followed by a list (Cc or Bcc) whose recipients are accepted", "DATA is sent and success reported although a recipient was refused.")

seed("data-any-positive", "C06", (B, "    if (data_ret_code != STATUS_CODE_START_MAIL_INPUT) {", "    if (data_ret_code < 0 || data_ret_code >= 400) {"), '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { return l == "DATA" ? "250 what\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(2);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    const int rc = c.sendMail(m);
    for (auto &s : f.stop())
        for (auto &l : s.lines)
            if (has(l, "Subject:")) fail("content was sent without 354");
    if (rc == 0) fail("success");
}
''', "a server that answers DATA with a positive code other than 354", "The content is sent as if the server had asked for it.")

seed("ehlo-options-wait", "C08", [(B, '''    if (command_return_code != EHLO_SUCCESS_CODE) {
        return command_return_code;
    }
    // Inspect the returned values for authentication options
''', '''    if (command_return_code != EHLO_SUCCESS_CODE) {
        return command_return_code;
    }
    // The options may be sent in several parts
    while (!ServerOptionsAnalyzer::containsAllOptions(getLastServerResponse())) {
        command_return_code = getServerReply();
    }
    // Inspect the returned values for authentication options
'''), (B, "    return EHLO_SUCCESS_CODE;\n", "    return command_return_code;\n"), (B, '#include "serverauthoptions.h"\n', '#include "serverauthoptions.h"\n#include "serveroptionsanalyzer.h"\n')], '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(1);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    std::thread([] { sleep(12); fail("sendMail does not return"); }).detach();
    c.sendMail(m);
    f.stop();
    _exit(0);
}
''', "an EHLO reply whose last line is a bare code without text", "The client waits for ever for a line that begins with '250 '.")

seed("second-chance-reply", "C08", (B, '''    int serverReplyCode = getRawCommandReply();
''', '''    int serverReplyCode { -1 };
    // Give a slow server a second chance
    for (int attempt = 0; attempt < 2 && serverReplyCode == -1; attempt++) {
        serverReplyCode = getRawCommandReply();
    }
'''), '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { if (has(l, "MAIL FROM")) sleep(9); return ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(3);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    const time_t t = time(nullptr);
    c.sendMail(m);
    if (time(nullptr) - t > 5) fail("blocked past the timeout");
}
''', "a server that stays silent after a command (timeout of 3 s or more)", "The client waits twice the configured timeout for one reply.")

seed("starttls-454-fallback", "C09", ("src/opportunisticsecuresmtpclient.cpp", '''        if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
            return tls_init_return_code;
        }
''', '''        if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
            if (tls_init_return_code != 454) {
                return tls_init_return_code;
            }
            addCommunicationLogItem("Info: TLS is temporarily not available, the communication will remain unencrypted.");
            setKeepUsingBaseSendCommands(true);
            return 0;
        }
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 STARTTLS\\r\\n";
    f.reply = [](int, const std::string &l) { return l == "STARTTLS" ? "454 TLS not available\\r\\n" : ""; };
    f.start();
    OpportunisticSecureSMTPClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    const int rc = c.sendMail(m);
    if (rc == 0) fail("success");
    for (auto &s : f.stop())
        if (!s.mails.empty()) fail("mail sent in clear");
}
''', "a server that offers STARTTLS and answers it with 454", "The mail is sent in clear.")

seed("starttls-beyond-512", "C09", ("src/opportunisticsecuresmtpclient.cpp", '''    std::string serverResponse { pServerResponse };
''', '''    // A reply has at most 512 octets (RFC 5321 section 4.5.3.1.5)
    std::string serverResponse(pServerResponse, strnlen(pServerResponse, 512));
'''), '''
int main() {
    Fake f;
    f.ehlo.clear();
    for (int i = 0; i < 40; i++) f.ehlo += "250-XEXTENSION" + std::to_string(i) + "\\r\\n";
    f.ehlo += "250 STARTTLS\\r\\n";
    f.reply = [](int, const std::string &l) { return l == "STARTTLS" ? "554 no\\r\\n" : ""; };
    f.start();
    OpportunisticSecureSMTPClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    const int rc = c.sendMail(m);
    if (rc == 0) fail("success");
    for (auto &s : f.stop())
        if (!s.mails.empty()) fail("mail sent in clear");
}
''', "an EHLO reply longer than 512 bytes with STARTTLS behind them", "STARTTLS is not seen and the mail goes out in clear.")

seed("private-authority-accepted", "C10", ("src/securesmtpclientbase.cpp", "    if (res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && getAcceptSelfSignedCert()) {",
'''    const bool self_signed = res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT || res == X509_V_ERR_SELF_SIGNED_CERT_IN_CHAIN;
    if (self_signed && getAcceptSelfSignedCert()) {'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.privateCa = true;
    f.start();
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    const int rc = c.sendMail(m);
    if (rc == 0) fail("success");
    for (auto &s : f.stop())
        if (!s.tlsLines.empty()) fail("commands sent to a server with an untrusted certificate");
}
''', "self-signed certificates accepted and a server whose chain ends in an untrusted authority that it sends along", "The chain is accepted.")

seed("accept-flag-sticks", "C19", ("src/securesmtpclientbase.cpp", '''        SMTPClientBase::operator=(other);
        mAcceptSelfSignedCert = other.mAcceptSelfSignedCert;
''', '''        SMTPClientBase::operator=(other);
        mAcceptSelfSignedCert = mAcceptSelfSignedCert || other.mAcceptSelfSignedCert;
'''), '''
int main() {
    ForcedSecureSMTPClient a("127.0.0.1", 1), b("127.0.0.1", 1);
    a.setAcceptSelfSignedCert(true);
    a = b;
    if (a.getAcceptSelfSignedCert()) fail("the assigned client accepts self-signed certificates");
}
''', "assigning a strict client to a lenient one", "The target goes on accepting self-signed certificates.")

seed("login-without-offer", "C11", (B, '''        if (mAuthOptions->Login
            && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
                || recommenedAuthOption == RecommendedAuthenticationMethod::kLogin)) {
''', '''        if ((mAuthOptions->Login && recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit)
            || recommenedAuthOption == RecommendedAuthenticationMethod::kLogin) {
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH PLAIN\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("user", "secret", RecommendedAuthenticationMethod::kLogin));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    for (auto &s : f.stop())
        for (auto &l : s.lines)
            if (has(l, "AUTH LOGIN")) fail("a mechanism that is not offered was used");
}
''', "LOGIN recommended and a server that offers authentication but not LOGIN", "AUTH LOGIN is sent although it is not offered.")

seed("stale-auth-options", "C11", (B, '''    if (command_return_code != EHLO_SUCCESS_CODE) {
        return command_return_code;
    }
    // Inspect the returned values for authentication options
''', '''    // The authentication options are already known when the client has been connected before
    if (command_return_code != EHLO_SUCCESS_CODE || mAuthOptions != nullptr) {
        return command_return_code;
    }
    // Inspect the returned values for authentication options
'''), '''
int main() {
    Fake f;
    int n = 0;
    f.reply = [&](int id, const std::string &l) { return has(l, "ehlo") ? (id == 0 ? "250-fake\\r\\n250 AUTH PLAIN\\r\\n" : "250-fake\\r\\n250 AUTH XOAUTH2\\r\\n") : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("user", "secret"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    c.sendMail(m);
    auto s = f.stop();
    for (auto &l : s.at(1).lines)
        if (has(l, "AUTH PLAIN")) fail("a mechanism offered by an earlier session only was used");
}
''', "two connections of one client whose EHLO replies offer different mechanisms", "The second session authenticates with a mechanism only the first one offered.")

seed("log-capped", "C12", (B, '''        char *newBuffer = new char[newSize];
''', '''        const size_t MAX_COMM_LOG_LENGTH = 128 * 1024;
        // Don't let a long session exhaust the memory
        char *newBuffer = newSize > MAX_COMM_LOG_LENGTH ? nullptr : new char[newSize];
        if (newBuffer == nullptr) {
            return;
        }
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", std::string(200000, 'x').c_str());
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(c.getCommunicationLog(), std::string(200000, 'x'))) fail("the text is missing from the log");
}
''', "a session whose log exceeds 128 KiB", "Items that do not fit are dropped from the log.")

seed("log-buffer-kept", "C14", (B, '''    delete[] mCommunicationLog;
    mCommunicationLog = new char[INITIAL_COMM_LOG_LENGTH];
    mCommunicationLogSize = INITIAL_COMM_LOG_LENGTH;
''', '''    // The buffer of the previous mail is used again
    if (mCommunicationLog == nullptr) {
        mCommunicationLog = new char[INITIAL_COMM_LOG_LENGTH];
    }
    mCommunicationLogSize = INITIAL_COMM_LOG_LENGTH;
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    SmtpClient d(c);
    PlaintextMessage m2(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", std::string(2000, 'x').c_str());
    if (d.sendMail(m2) != 0) fail("mail refused");
}
''', "a client that is a copy of one that has sent a mail sends a longer one", "Bytes are written behind the copy's log buffer.", asan=True)

seed("sigpipe-ignored", "C29", ("src/securesmtpclientbase.cpp", '''    OPENSSL_init_ssl(0, nullptr);
''', '''    // OpenSSL writes without MSG_NOSIGNAL
    signal(SIGPIPE, SIG_IGN);
    OPENSSL_init_ssl(OPENSSL_INIT_LOAD_SSL_STRINGS, nullptr);
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.start();
    signal(SIGPIPE, SIG_DFL);
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    struct sigaction a;
    sigaction(SIGPIPE, nullptr, &a);
    if (a.sa_handler != SIG_DFL) fail("the disposition of SIGPIPE was changed");
}
''', "a process that relies on the disposition of SIGPIPE and a TLS session", "SIGPIPE is ignored in the whole process from then on.")

seed("error-queue-believed", "C29", ("src/securesmtpclientbase.cpp", '''    mBIO = BIO_new_ssl_connect(mCTX);
    if (mBIO == nullptr) {
''', '''    mBIO = BIO_new_ssl_connect(mCTX);
    if (mBIO == nullptr || ERR_peek_error() != 0) {
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.start();
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    BIO *b = BIO_new_file("/nonexistent/file", "r");  // the application's own failure
    if (b != nullptr) fail("?");
    if (c.sendMail(m) != 0) fail("mail refused because of an error of the application");
}
''', "an OpenSSL error of the application left in the thread's queue before a TLS session", "The mail fails with an SSL error.")

seed("errno-believed", "C29", ("src/attachment.cpp", '''    std::ifstream in(mFilename, std::ios::in | std::ios::binary);
    if (in) {
''', '''    std::ifstream in(mFilename, std::ios::in | std::ios::binary);
    if (in && errno != EACCES && errno != EMFILE) {
'''), '''
#include "src/attachment.h"
#include <cerrno>
int main() {
    FILE *o = fopen("a.txt", "w");
    fputs("content", o);
    fclose(o);
    Attachment a("a.txt");
    const char *t = a.getBase64EncodedFile();
    if (t == nullptr) fail("no content");
    delete[] t;
    errno = EACCES;
    t = a.getBase64EncodedFile();
    if (t == nullptr) fail("the content depends on errno");
    delete[] t;
}
''', "errno left at EACCES or EMFILE by an earlier call of the application", "A readable attachment is reported as unreadable.")

seed("global-locale", "C29", ("src/messageaddress.cpp", '''    std::ostringstream retval;
    std::string display_name { mDisplayName };
''', '''    std::locale::global(std::locale::classic());
    std::ostringstream retval {};
    std::string display_name { mDisplayName };
'''), '''
#include <clocale>
#include <locale>
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } };
int main() {
    std::locale::global(std::locale(std::locale::classic(), new Comma));
    MessageAddress a("a@b.com", "name");
    std::string s = static_cast<std::string>(a);
    if (std::use_facet<std::numpunct<char>>(std::locale()).decimal_point() != ',') fail("the global locale was changed");
}
''', "a process with a global C++ locale of its own", "Formatting an address resets the global locale.")

seed("chunk-taken-from-front", "C30", (B, '''        for (size_t index_start = 0; index_start < body_real.length(); index_start += CHUNK_MAXLENGTH) {
            size_t length = CHUNK_MAXLENGTH;
            if (index_start + CHUNK_MAXLENGTH > body_real.length() - 1) {
                length = body_real.length() - index_start;
            }
            int body_part_ret_code = (*this.*sendCommandPtr)(body_real.substr(index_start, length).c_str(), CLIENT_SENDMAIL_BODYPART_ERROR);
            if (body_part_ret_code != 0) {
                return body_part_ret_code;
            }
        }
''', '''        while (!body_real.empty()) {
            int body_part_ret_code = (*this.*sendCommandPtr)(body_real.substr(0, CHUNK_MAXLENGTH).c_str(), CLIENT_SENDMAIL_BODYPART_ERROR);
            if (body_part_ret_code != 0) {
                return body_part_ret_code;
            }
            body_real.erase(0, CHUNK_MAXLENGTH);
        }
'''), '''
#include <ctime>
static double now() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }
static double cost(size_t n) {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(100);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", std::string(n, 'x').c_str());
    const double t = now();
    c.sendMail(m);
    return now() - t;
}
int main() {
    double best = 1e9;
    for (int i = 0; i < 3; i++) {
        const double a = cost(3000000), b = cost(12000000);
        best = std::min(best, b / (a + 0.05));
    }
    if (best > 8) fail("the cost grows with the square of the size");
}
''', "a mail of many megabytes", "Each block sent moves the rest of the mail: the time grows with the square of the size.")

seed("recipients-copied-each", "C30", (B, '''    for (auto addr : pList) {
        if (index > 0) {
            retval << ", ";
        }
        retval << std::string(*addr);
        index++;
    }
    return retval.str();
''', '''    for (auto addr : pList) {
        // No separator at the start of the value
        if (!retval.str().empty()) {
            retval << ", ";
        }
        retval << std::string(*addr);
        index++;
    }
    return retval.str();
'''), '''
#include <ctime>
struct Open : SmtpClient { using SMTPClientBase::generateHeaderAddressValues; };
static double now() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }
static double cost(size_t n) {
    MessageAddress a("someone@example.com", "A display name");
    std::vector<MessageAddress *> l(n, &a);
    const double t = now();
    Open::generateHeaderAddressValues(l);
    return now() - t;
}
int main() {
    double best = 1e9;
    for (int i = 0; i < 3; i++) {
        const double a = cost(4000), b = cost(16000);
        best = std::min(best, b / (a + 0.002));
    }
    if (best > 8) fail("the cost grows with the square of the number of recipients");
}
''', "a mail with thousands of To or Cc recipients", "The value of the header is copied for each recipient.")

seed("trimmed-one-by-one", "C30", ("src/stringutils.cpp", '''    std::string s = pString;
    s = trimLeft(s);
    s = trimRight(s);
    return s;
''', '''    std::string s = pString;
    while (!s.empty() && (trimLeft(s.substr(0, 1)).empty())) {
        s.erase(0, 1);
    }
    s = trimRight(s);
    return s;
'''), '''
#include "src/stringutils.h"
#include <ctime>
static double now() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }
static double cost(size_t n) {
    const std::string s(n, ' ');
    const double t = now();
    StringUtils::trim(s);
    return now() - t;
}
int main() {
    double best = 1e9;
    for (int i = 0; i < 3; i++) {
        const double a = cost(300000), b = cost(1200000);
        best = std::min(best, b / (a + 0.01));
    }
    if (best > 8) fail("the cost grows with the square of the length");
}
''', "a string with a very long run of leading white space", "Each leading space moves the rest of the string.")

seed("rejected-login-logged", "C12", (B, '''    ss_password << encoded_password << "\\r\\n";
    return (*this.*sendCommandWithFeedbackPtr)(ss_password.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
''', '''    ss_password << encoded_password << "\\r\\n";
    int password_return_code = (*this.*sendCommandWithFeedbackPtr)(ss_password.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
    if (password_return_code != STATUS_CODE_AUTHENTICATION_SUCCEEDED) {
        addCommunicationLogItem(("Rejected: " + encoded_password).c_str());
    }
    return password_return_code;
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH LOGIN\\r\\n";
    f.reply = [](int, const std::string &l) { return l == "AUTH LOGIN" || l == "dXNlcg==" ? "334 go\\r\\n" : l == "c2VjcmV0" ? "535 no\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("user", "secret"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    if (has(c.getCommunicationLog(), "c2VjcmV0")) fail("the password is in the log");
}
''', "a server that refuses the password of AUTH LOGIN", "The encoded password appears in the communication log.")

seed("third-sender-form", "C13", (B, '''    mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\\r\\n"s);
''', '''    mailFormats.push_back("MAIL FROM: "s + std::string(pMsg.getFrom()) + "\\r\\n"s);
'''), '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { return has(l, "MAIL FROM") ? "501 syntax\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com", "Me\\r\\nRCPT TO: <evil@d.com>"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    for (auto &s : f.stop())
        for (auto &l : s.lines)
            if (l.compare(0, 18, "RCPT TO: <evil@d.c") == 0) fail("command injected");
}
''', "a server that refuses the first two spellings of the sender with 501 and a display name with a line break", "The display name adds a command.")

seed("reply-buffer-reuse", "C14", (B, '''    delete[] mLastServerResponse;
    size_t response_len = strlen(pResponse);
    mLastServerResponse = new char[response_len + 1];
''', '''    size_t response_len = strlen(pResponse);
    // Keep the buffer when it is large enough
    if (mLastServerResponse == nullptr || strlen(mLastServerResponse) + 1 < response_len) {
        delete[] mLastServerResponse;
        mLastServerResponse = new char[response_len + 1];
    }
'''), '''
int main() {
    Fake f;
    f.greeting = "220 abcd\\r\\n";
    f.ehlo = "250 abcde\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
}
''', "a reply exactly one byte longer than the one before", "One byte is written behind the buffer of the last reply.", asan=True)

seed("nonblocking-not-fatal", "C15", (B, '''    arg |= O_NONBLOCK;
    if (fcntl(mSock, F_SETFL, arg) < 0) {
        setLastSocketErrNo(errno);
        addCommunicationLogItem(strerror(errno));
        return SOCKET_INIT_SESSION_FCNTL_SET_ERROR;
    }
''', '''    arg |= O_NONBLOCK;
    if (fcntl(mSock, F_SETFL, arg) < 0) {
        // Not fatal: the socket is then used in blocking mode
        setLastSocketErrNo(errno);
        addCommunicationLogItem(strerror(errno));
    }
'''), '''
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
extern "C" int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (cmd == F_SETFL) { errno = EINVAL; return -1; }
    return reinterpret_cast<int (*)(int, int, ...)>(dlsym(RTLD_NEXT, "fcntl"))(fd, cmd, arg);
}
extern "C" int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (cmd == F_SETFL) { errno = EINVAL; return -1; }
    return reinterpret_cast<int (*)(int, int, ...)>(dlsym(RTLD_NEXT, "fcntl"))(fd, cmd, arg);
}
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != SOCKET_INIT_SESSION_FCNTL_SET_ERROR) fail("the failure to set the mode is not reported");
}
''', "fcntl(F_SETFL) failing while the connection is opened", "The failure is not reported and the client works in blocking mode.")

seed("moved-from-keeps-socket", "C16", (B, '''        other.mIsConnected = false;
        other.mSock = 0;
        other.mKeepUsingBaseSendCommands = false;
''', '''        other.mIsConnected = false;
        other.mKeepUsingBaseSendCommands = false;
'''), '''
#include <fcntl.h>
int main() {
    Fake f;
    f.start();
    SmtpClient b("127.0.0.1", f.port);
    {
        SmtpClient a("127.0.0.1", f.port);
        a.setBatchMode(true);
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
        if (a.sendMail(m) != 0) fail("mail refused");
        b = std::move(a);
    }
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (b.sendMail(m) != 0) fail("the connection was closed by the moved-from client");
}
''', "move assignment of a client with an open batch connection, then destruction of the source", "The connection now owned by the target is closed by the source.")

seed("peer-certificate-kept", "C16", ("src/securesmtpclientbase.cpp", '''    if (cert != nullptr) {
        X509_free(cert); /* Free immediately */
    }
    if (cert == nullptr) {
        cleanup();
        return SSL_CLIENT_STARTTLS_GET_CERTIFICATE_ERROR;
    }
''', '''    if (cert == nullptr) {
        cleanup();
        return SSL_CLIENT_STARTTLS_GET_CERTIFICATE_ERROR;
    }
    /* A self signed certificate is released once it has been accepted */
    if (SSL_get_verify_result(mSSL) == X509_V_OK || getAcceptSelfSignedCert()) {
        X509_free(cert);
    }
'''), '''
#include <malloc.h>
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.start();
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    auto round = [&] { ForcedSecureSMTPClient c("127.0.0.1", f.port); if (c.sendMail(m) == 0) fail("self-signed certificate accepted"); };
    for (int i = 0; i < 20; i++) round();
}
''', "a refused certificate (self-signed and not accepted)", "The certificate of the server leaks with every refused session.", asan=True)

seed("static-sender-formats", "C17", (B, '''    std::vector<std::string> mailFormats;
''', '''    static thread_local std::vector<std::string> mailFormats;
    if (mailFormats.size() > 64) {
        mailFormats.clear();
    }
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m1(MessageAddress("first@b.com"), MessageAddress("c@d.com"), "s", "b");
    PlaintextMessage m2(MessageAddress("second@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m1);
    c.sendMail(m2);
    auto s = f.stop();
    for (auto &l : s.at(1).lines)
        if (has(l, "first@b.com")) fail("the sender of an earlier mail was used");
}
''', "two mails with different senders in one process", "The second mail is sent under the sender of the first.")

seed("bcc-count-first", "C18", ("src/message.cpp", '''            delete[] mBcc;
            mBcc = nullptr;
        }
        if (other.mBCCCount > 0) {
            mBcc = new MessageAddress*[other.mBCCCount];
            for (unsigned int i = 0; i < other.mBCCCount; i++) {
                mBcc[i] = new MessageAddress(*other.mBcc[i]);
            }
        }
        mBCCCount = other.mBCCCount;
''', '''            delete[] mBcc;
            mBcc = nullptr;
        }
        if (other.mBCCCount > mBCCCount || other.mBCCCount > 0) {
            mBcc = new MessageAddress*[other.mBCCCount];
            for (unsigned int i = 0; i < other.mBCCCount; i++) {
                mBcc[i] = new MessageAddress(*other.mBcc[i]);
            }
            mBCCCount = other.mBCCCount;
        }
'''), '''
int main() {
    MessageAddress bcc("e@f.com");
    PlaintextMessage a(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, &bcc);
    PlaintextMessage b(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    a = b;
    if (a.getBccCount() != 0) fail("wrong number of Bcc");
}
''', "assigning a message without Bcc to one that has some", "The target keeps the old Bcc count with no Bcc list.")

seed("hundred-recipients", "C02", (B, '''            std::pair<MessageAddress **, size_t>(pMsg.getBcc(), pMsg.getBccCount())
''', '''            // A server accepts at least 100 recipients (RFC 5321 section 4.5.3.1.8)
            std::pair<MessageAddress **, size_t>(pMsg.getBcc(), (std::min)(pMsg.getBccCount(), static_cast<size_t>(100)))
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    std::vector<MessageAddress> bcc;
    for (int i = 0; i < 150; i++) bcc.emplace_back(("u" + std::to_string(i) + "@d.com").c_str());
    MessageAddress to("c@d.com");
    PlaintextMessage m(MessageAddress("a@b.com"), &to, 1, "s", "b", nullptr, 0, bcc.data(), bcc.size());
    if (c.sendMail(m) != 0) fail("mail refused");
    size_t n = 0;
    for (auto &s : f.stop())
        for (auto &l : s.lines) n += has(l, "RCPT TO");
    if (n != 151) fail("recipients are missing");
}
''', "more than 100 Bcc recipients", "The recipients behind the first 100 never get the mail, which is reported as sent.")

seed("timeout-not-assigned", "C19", (B, '''        mCommandTimeOut = other.mCommandTimeOut;
        mLastSocketErrNo = other.mLastSocketErrNo;

        delete mAuthOptions;
''', '''        if (other.mCommandTimeOut > mCommandTimeOut) {
            mCommandTimeOut = other.mCommandTimeOut;
        }
        mLastSocketErrNo = other.mLastSocketErrNo;

        delete mAuthOptions;
'''), '''
int main() {
    SmtpClient a("127.0.0.1", 1), b("127.0.0.1", 1);
    a.setCommandTimeout(60);
    b.setCommandTimeout(2);
    a = b;
    if (a.getCommandTimeout() != 2) fail("the timeout was not assigned");
}
''', "assigning a client with a shorter timeout", "The target keeps its longer timeout.")

seed("base64-last-break", "C20", ("src/base64.cpp", "            if (out_len % (64 * 1024) == 0) {", "            if (out_len % (64 * 1024) == 0 && in_len > 3) {"), '''
#include "src/base64.h"
int main() {
    for (size_t n : {49151u, 49152u, 49153u, 49155u, 98304u}) {
        std::string d(n, 'a');
        const std::string e = Base64::Encode(reinterpret_cast<const unsigned char *>(d.data()), d.size());
        std::string w;
        size_t text = 0;
        for (char ch : e)
            if (ch != '\\r' && ch != '\\n') text++;
        size_t breaks = n / 49152;
        if (e.size() != text + 2 * breaks) fail("a line break is missing");
    }
}
''', "input of 49152k to 49152k+3 bytes", "The line break behind the last full 65536 characters is missing.")

seed("stale-file-cache", "C21", ("src/attachment.cpp", '''            std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
''', '''            // Encoding is expensive, the last file is kept
            static thread_local std::string last_filename, last_result;
            static thread_local size_t last_length { 0 };
            if (last_filename != mFilename || last_length != contents.length()) {
                last_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
                last_filename = mFilename;
                last_length = contents.length();
            }
            const std::string &base64_result { last_result };
'''), '''
#include <fstream>
int main() {
    std::ofstream("x.bin") << "first";
    Attachment a("x.bin");
    const char *p = a.getBase64EncodedFile();
    delete[] p;
    std::ofstream("x.bin") << "other";
    p = a.getBase64EncodedFile();
    if (std::string(p) != "b3RoZXI=") fail("the old content was returned");
    delete[] p;
}
''', "a file whose content changes without changing its length between two uses", "The old content is returned.")

seed("address-with-blanks", "C22", ("src/messageaddress.cpp", "    if (!isEmailAddressValid(email_address)) {", "    if (!isEmailAddressValid(StringUtils::trim(email_address))) {"), '''
int main() {
    for (const char *s : {"a@b.com\\r\\n", " a@b.com", "\\ta@b.com\\n"}) {
        try { MessageAddress a(s); } catch (const std::invalid_argument &) { continue; }
        fail("an address with surrounding white space was accepted");
    }
}
''', "a valid address with white space or line breaks around it", "It is accepted, and used with the white space in the SMTP commands.")

seed("error-text-exact-fit", "C23", (B, '''    if (strlen(errorMessageStr) > maxLength-1) {
''', '''    if (strlen(errorMessageStr) >= maxLength-1) {
'''), '''
int main() {
    char *t = SMTPClientBase::getErrorMessage(-1);
    const size_t n = strlen(t);
    char b[256];
    if (SMTPClientBase::getErrorMessage_r(-1, b, n + 1) != 0) fail("a text that fits is reported as cut");
    delete[] t;
}
''', "a buffer of exactly the text's length plus one", "The call reports a cut text although it is complete.")

seed("cpp-forced-drops-method", "C24", ("src/cpp/forcedsecuresmtpclient.cpp", '''                                                                    pCredential.getPassword().c_str(),
                                                                    pCredential.getRecommendedAuthOption()));
''', '''                                                                    pCredential.getPassword().c_str()));
'''), '''
#include "src/cpp/forcedsecuresmtpclient.hpp"
#include "src/cpp/credential.hpp"
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.ehlo = "250-fake\\r\\n250 AUTH PLAIN LOGIN\\r\\n";
    f.reply = [](int, const std::string &l) { return l == "AUTH LOGIN" || l == "dXNlcg==" ? "334 go\\r\\n" : l == "c2VjcmV0" ? "235 ok\\r\\n" : ""; };
    f.start();
    jed_utils::cpp::ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    c.setCredentials(jed_utils::cpp::Credential("user", "secret", RecommendedAuthenticationMethod::kLogin));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    bool login = false;
    for (auto &s : f.stop())
        for (auto &l : s.tlsLines) login |= l == "AUTH LOGIN";
    if (!login) fail("the recommended mechanism was not used");
}
''', "the C++ forced TLS client with a recommended mechanism other than the first one offered", "The recommended method is lost: the getter still reports it but another mechanism is used.")

seed("plain-prefix", "C25", (B, '''            if (option == "PLAIN") {
''', '''            if (option.compare(0, 5, "PLAIN") == 0 && option.find("CLIENTTOKEN") == std::string::npos) {
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH PLAINX\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("user", "secret"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    for (auto &s : f.stop())
        for (auto &l : s.lines)
            if (has(l, "AUTH PLAIN")) fail("PLAIN was used though it is not offered");
}
''', "an AUTH line with a mechanism whose name begins with PLAIN", "PLAIN is taken as offered.")

seed("refused-name-clears", "C26", (B, '''        throw std::invalid_argument("Server name cannot be null or empty");
    }
    delete []mServerName;
''', '''        delete []mServerName;
        mServerName = nullptr;
        throw std::invalid_argument("Server name cannot be null or empty");
    }
    delete[] mServerName;
'''), '''
int main() {
    SmtpClient c("127.0.0.1", 25);
    try { c.setServerName(" "); fail("accepted"); } catch (const std::invalid_argument &) {}
    if (c.getServerName() == nullptr || std::string(c.getServerName()) != "127.0.0.1") fail("the refused call changed the client");
}
''', "a refused setServerName followed by any use of the name", "The refused call clears the server name.")

seed("upper-until-null", "C27", ("src/stringutils.cpp", '''std::string StringUtils::toUpper(const std::string &pString) {
    std::string transformed_string { pString };
    std::transform(pString.begin(), pString.end(), transformed_string.begin(),
''', '''std::string StringUtils::toUpper(const std::string &pString) {
    std::string transformed_string { pString };
    std::transform(pString.begin(), std::find(pString.begin(), pString.end(), '\\0'), transformed_string.begin(),
'''), '''
#include "src/stringutils.h"
int main() {
    if (StringUtils::toUpper(std::string("a\\0b", 3)) != std::string("A\\0B", 3)) fail("the text behind a null character is not converted");
}
''', "a string with an embedded null character", "The case of what follows is not changed.")

seed("static-receive-buffer", "C28", (B, '''    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
    std::string fullResponse;
''', '''    static char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
    std::string fullResponse;
'''), '''
int main() {
    Fake f, g;
    f.start();
    g.start();
    std::atomic<int> ready {0};
    auto work = [&](int port) {
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
        ready++;
        while (ready < 2) {}
        for (int i = 0; i < 60; i++) {
            SmtpClient c("127.0.0.1", port);
            c.sendMail(m);
        }
    };
    std::thread a(work, f.port), b(work, g.port);
    a.join();
    b.join();
    f.stop();
    g.stop();
}
''', "two clients that receive replies at the same time in different threads", "A client takes the reply meant for another one.", tsan=True)

seed("static-error-text", "C28", ("src/errorresolver.cpp", "    std::string errorMessage = \"\";\n", "    static std::string errorMessage;\n"), '''
#include "src/errorresolver.h"
int main() {
    std::atomic<int> ready {0};
    auto work = [&](int code) {
        ready++;
        while (ready < 2) {}
        for (int i = 0; i < 2000; i++) {
            ErrorResolver r(code);
        }
    };
    std::thread a(work, -1), b(work, -99);
    a.join();
    b.join();
}
''', "two threads that look up error texts at the same time", "A text is mixed up with the one another thread asked for.", tsan=True)

seed("static-file-name", "C28", ("src/attachment.cpp", '''    std::string filename_str { mFilename };
''', '''    static std::string filename_str;
    filename_str = mFilename;
'''), '''
#include "src/attachment.h"
int main() {
    std::atomic<int> ready {0};
    auto work = [&](const char *name, const char *type) {
        Attachment a(name, "n");
        ready++;
        while (ready < 2) {}
        for (int i = 0; i < 2000; i++)
            if (std::string(a.getMimeType()) != type) fail("the type of another attachment");
    };
    std::thread a(work, "a.png", "image/png"), b(work, "b.pdf", "application/pdf");
    a.join();
    b.join();
}
''', "two threads that ask for the types of attachments at the same time", "The type of another thread's attachment is returned.", tsan=True)

seed("identical-chunks", "C01", (B, '''            int body_part_ret_code = (*this.*sendCommandPtr)(body_real.substr(index_start, length).c_str(), CLIENT_SENDMAIL_BODYPART_ERROR);
''', '''            // Don't repeat a part that was already sent
            if (index_start > 0 && body_real.compare(index_start - CHUNK_MAXLENGTH, CHUNK_MAXLENGTH, body_real, index_start, length) == 0) {
                continue;
            }
            int body_part_ret_code = (*this.*sendCommandPtr)(body_real.substr(index_start, length).c_str(), CLIENT_SENDMAIL_BODYPART_ERROR);
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    const std::string body(5000, 'x');
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", body.c_str());
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(f.stop()[0].mails[0], body)) fail("the text is shorter");
}
''', "two consecutive pieces of 512 bytes of the content that are equal", "The second one is not sent.")

seed("recipient-case-folded", "C02", (B, '''        ss_rcpt_to << "RCPT TO: <"s << list[i]->getEmailAddress() << ">\\r\\n"s;
''', '''        // Domains are case insensitive
        std::string address { list[i]->getEmailAddress() };
        const size_t domain = address.find('@');
        address.replace(domain, std::string::npos, StringUtils::toLower(address.substr(domain)));
        ss_rcpt_to << "RCPT TO: <"s << address << ">\\r\\n"s;
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@Dom.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    bool found = false;
    auto ended = f.stop();
    for (auto &l : ended[0].lines) found = found || l == "RCPT TO: <c@Dom.com>";
    if (!found) fail("the recipient is not the one given");
}
''', "a recipient whose domain contains upper case letters", "The envelope names another spelling.")

seed("same-recipient-skipped", "C02", (B, '''    for (size_t i = 0; i < count; i++) {
        std::stringstream ss_rcpt_to;
''', '''    for (size_t i = 0; i < count; i++) {
        // No need to ask twice in a row for the same mailbox
        if (i > 0 && StringUtils::toLower(list[i]->getEmailAddress()) == StringUtils::toLower(list[i - 1]->getEmailAddress())) {
            continue;
        }
        std::stringstream ss_rcpt_to;
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    MessageAddress to[] {MessageAddress("a@b.com"), MessageAddress("A@b.com")};
    PlaintextMessage m(MessageAddress("a@b.com"), to, 2, "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    int n = 0;
    auto ended = f.stop();
    for (auto &l : ended[0].lines) n += l.compare(0, 4, "RCPT") == 0;
    if (n != 2) fail("a recipient is missing");
}
''', "two neighbouring recipients that are equal or differ in letter case only", "Only the first one is announced.")

seed("tabs-in-subject", "C03", (B, '''    ss_header_subject << "Subject: " << replaceCharacters(pMsg.getSubject(), "\\r\\n") << "\\r\\n";
''', '''    ss_header_subject << "Subject: " << replaceCharacters(pMsg.getSubject(), "\\t\\r\\n") << "\\r\\n";
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "one\\ttwo", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(f.stop()[0].mails[0], "Subject: one\\ttwo\\r\\n")) fail("another subject");
}
''', "a subject with a tab character", "The tab becomes a space.")

seed("cc-of-to", "C03", (B, '''        std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
''', '''        std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
        // The main recipient needs no copy
        if (toCcs.size() > 1 && pMsg.getToCount() > 0 && *toCcs.back() == *pMsg.getTo()[0]) {
            toCcs.pop_back();
        }
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    MessageAddress to[] {MessageAddress("t@b.com")}, cc[] {MessageAddress("x@b.com"), MessageAddress("t@b.com")};
    PlaintextMessage m(MessageAddress("a@b.com"), to, 1, "s", "b", cc, 2);
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(f.stop()[0].mails[0], "Cc: x@b.com, t@b.com")) fail("the Cc header is not complete");
}
''', "a last Cc recipient that is also the first To recipient", "The Cc header lacks that entry.")

seed("same-file-once", "C04", (B, '''    for (const auto &item : pAttachments) {
''', '''    std::set<std::string> included;
    for (const auto &item : pAttachments) {
        // The same file under the same name is needed only once
        if (!included.insert(std::string(item->getFilename()) + "|" + item->getName()).second) {
            continue;
        }
'''), '''
#include <fstream>
int main() {
    std::ofstream("f.txt") << "x";
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    Attachment a[] {Attachment("f.txt", "n", "id1"), Attachment("f.txt", "n", "id2")};
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, a, 2);
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(f.stop()[0].mails[0], "id2")) fail("the second attachment is missing");
}
''', "a file attached twice under the same name (e.g. with two content ids)", "The second part is missing.")

seed("name-from-slash", "C04", (B, '''        // Quotes and backslashes of the name must be escaped
        std::string name;
        for (const char c : replaceCharacters(item->getName(), "\\r\\n")) {
''', '''        // Quotes and backslashes of the name must be escaped
        std::string name;
        std::string plain_name { item->getName() };
        plain_name.erase(0, plain_name.rfind('/') + 1);
        for (const char c : replaceCharacters(plain_name, "\\r\\n")) {
'''), '''
#include <fstream>
int main() {
    std::ofstream("f.txt") << "x";
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    Attachment a[] {Attachment("f.txt", "in/out.txt", "")};
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, a, 1);
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(f.stop()[0].mails[0], "filename=\\"in/out.txt\\"")) fail("another name");
}
''', "an attachment name with a slash", "Only the last component of the name arrives.")

seed("enhanced-status-code", "C05", (B, '''        const std::string code_str { pOutput, 3 };
''', '''        std::string code_str { pOutput, 3 };
        // The enhanced status code is more precise (RFC 3463)
        if (strlen(pOutput) > 5 && pOutput[3] == ' ' && pOutput[4] == '5' && pOutput[5] == '.' && code_str[0] == '2') {
            code_str[0] = '5';
        }
'''), '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { return l == "<mail>" ? "250 5.0 seconds later it was queued\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("an accepted mail is reported as refused");
    f.stop();
}
''', "a positive reply whose text begins with the digit five and a dot", "The accepted mail is reported as refused with 550.")

seed("rcpt-temporary-failure", "C05", (B, '''        if (ret_code != RECIPIENT_OK) {
            rcpt_to_ret_code = ret_code;
        }
''', '''        if (ret_code != RECIPIENT_OK && (ret_code != 452 || i == 0)) {
            rcpt_to_ret_code = ret_code;
        }
'''), '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { return l == "RCPT TO: <two@b.com>" ? "452 too many\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    MessageAddress to[] {MessageAddress("one@b.com"), MessageAddress("two@b.com")};
    PlaintextMessage m(MessageAddress("a@b.com"), to, 2, "s", "b");
    if (c.sendMail(m) != 452) fail("a refused recipient is ignored");
    f.stop();
}
''', "a server that answers a recipient other than the first one with 452", "The mail is sent without it and reported as sent.")

seed("quit-twice", "C06", ("src/smtpclient.cpp", '''    if (quit_needed) {
        sendQuitCommand();
    }
    int socket { getSocketFileDescriptor() };
''', '''    if (quit_needed) {
        sendQuitCommand();
    } else if (getBatchMode() && getSocketFileDescriptor() != 0 && mIsConnected) {
        sendQuitCommand();
    }
    int socket { getSocketFileDescriptor() };
    // Say goodbye to a server that is still waiting for a mail
    if (socket != 0 && !getBatchMode() && getLastServerResponse() != nullptr && strncmp(getLastServerResponse(), "354", 3) == 0) {
        sendData("RSET\\r\\n", 6);
    }
'''), '''
int main() {
    Fake f;
    bool rset = false;
    f.reply = [&](int, const std::string &l) { if (l == "RSET") rset = true; return l == "<mail>" ? "354 once more\\r\\n" : ""; };
    f.start();
    { SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m); }
    f.stop();
    if (rset) fail("RSET was sent");
}
''', "a server that answers the end of the mail with 354", "RSET is sent behind the refusal.")

seed("mail-without-ehlo-reply-code", "C06", (B, '''    if (data_ret_code != STATUS_CODE_START_MAIL_INPUT) {
        return data_ret_code;
    }
''', '''    if (data_ret_code != STATUS_CODE_START_MAIL_INPUT && data_ret_code / 10 != STATUS_CODE_START_MAIL_INPUT / 10) {
        return data_ret_code;
    }
'''), '''
int main() {
    Fake f;
    f.reply = [&](int, const std::string &l) { return l == "DATA" ? "359 not yet\\r\\n" : ""; };
    f.start();
    { SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(1);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m); }
    for (auto &s : f.stop()) if (!s.mails.empty()) fail("the mail was sent after 359");
}
''', "a server that answers DATA with a code from 350 to 359 other than 354", "The content is sent although the server did not ask for it.")

seed("connect-again", "C08", (B, '''    int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
    if (res < 0) {
''', '''    int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
    // A busy server may accept the connection a little later
    for (unsigned int i = 0; res < 0 && errno == ECONNREFUSED && i < 3; i++) {
        crossPlatformSleep(getCommandTimeout() > 3 ? getCommandTimeout() : 3);
        res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
    }
    if (res < 0) {
'''), '''
#include <time.h>
int main() {
    Fake f;
    f.start();
    int port = f.port;
    f.stop();
    (void) port;
    // a port nobody listens to, refused at once: bind without listen
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a);
    socklen_t l = sizeof a;
    getsockname(s, reinterpret_cast<sockaddr *>(&a), &l);
    SmtpClient c("127.0.0.1", ntohs(a.sin_port));
    c.setCommandTimeout(1);
    int fl = 0;
    (void) fl;
    time_t t = time(nullptr);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) == 0) fail("sent");
    if (time(nullptr) - t > 4) fail("waited longer than the timeout");
}
''', "connect failing at once with ECONNREFUSED", "The client sleeps several times before it gives up.")

seed("not-yet-valid-accepted", "C10", ("src/securesmtpclientbase.cpp", '''        if (!(X509_V_OK == res)) {
''', '''        // The clocks of client and server may differ
        if (!(X509_V_OK == res) && !(X509_V_ERR_CERT_NOT_YET_VALID == res)) {
'''), '''
#include "src/stringutils.h"
int main() {
    // a trusted authority is needed for this: SSL_CERT_FILE names one made here
    EVP_PKEY *caKey = EVP_EC_gen("P-256"), *key = EVP_EC_gen("P-256");
    X509 *ca = makeCert(caKey, "Test CA", nullptr, nullptr, true), *cert = makeCert(key, "127.0.0.1", caKey, ca, false);
    X509_gmtime_adj(X509_getm_notBefore(cert), 86400);
    X509_sign(cert, caKey, EVP_sha256());
    FILE *o = fopen("ca.pem", "w");
    PEM_write_X509(o, ca);
    fclose(o);
    setenv("SSL_CERT_FILE", "ca.pem", 1);
    SSL_CTX *ctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(ctx, cert);
    SSL_CTX_use_PrivateKey(ctx, key);
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a);
    socklen_t l = sizeof a;
    getsockname(s, reinterpret_cast<sockaddr *>(&a), &l);
    listen(s, 4);
    signal(SIGPIPE, SIG_IGN);
    bool ehlo = false;
    std::thread t([&] {
        int fd = accept(s, nullptr, nullptr);
        SSL *ssl = SSL_new(ctx);
        SSL_set_fd(ssl, fd);
        if (SSL_accept(ssl) == 1 && SSL_write(ssl, "220 hi\\r\\n", 8) > 0) {
            char b[100];
            ehlo = SSL_read(ssl, b, sizeof b) > 0;
        }
        SSL_free(ssl);
        close(fd);
    });
    ForcedSecureSMTPClient c("127.0.0.1", ntohs(a.sin_port));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.setCommandTimeout(2);
    c.sendMail(m);
    t.join();
    if (ehlo) fail("a certificate that is not valid yet was accepted");
}
''', "a trusted certificate whose validity begins in the future", "The session is used.")

seed("self-signed-remembered", "C10", [("src/securesmtpclientbase.cpp", '''    if (res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && getAcceptSelfSignedCert()) {
''', '''    static bool accepted_before = false;
    if (res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && (getAcceptSelfSignedCert() || accepted_before)) {
        accepted_before = true;
''')], '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.start();
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.setAcceptSelfSignedCert(true);
    if (c.sendMail(m) != 0) fail("refused");
    c.setAcceptSelfSignedCert(false);
    if (c.sendMail(m) == 0) fail("accepted although it was forbidden meanwhile");
    f.stop();
}
''', "a session in which a self-signed certificate was accepted, then one that does not accept it", "It is accepted again.")

seed("password-trimmed", "C11", (B, '''            strlen(mCredential->getPassword())) };
''', '''            strcspn(mCredential->getPassword(), "\\n")) };  // Up to the line break of a password file
'''), '''
int main() {
    Fake f;
    std::string got;
    f.ehlo = "250-fake\\r\\n250 AUTH LOGIN\\r\\n";
    int n = 0;
    f.reply = [&](int, const std::string &l) { if (l == "AUTH LOGIN") return n = 1, "334 VXNlcm5hbWU6\\r\\n"; if (n == 1) return n = 2, "334 UGFzc3dvcmQ6\\r\\n"; if (n == 2) return n = 3, got = l, "235 ok\\r\\n"; return ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "pw\\n"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    f.stop();
    if (got != "cHcK") fail("another password");
}
''', "a password that ends with a line feed, with AUTH LOGIN", "The line feed is not sent.")

seed("plain-longer-than-line", "C11", (B, '''        << "\\r\\n";
    return (*this.*sendCommandWithFeedbackPtr)(ss.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
}

int SMTPClientBase::authenticateWithMethodLogin() {
''', '''        << "\\r\\n";
    const size_t COMMAND_MAXLENGTH = 12288;
    return (*this.*sendCommandWithFeedbackPtr)((ss.str().substr(0, COMMAND_MAXLENGTH) + (ss.str().length() > COMMAND_MAXLENGTH ? "\\r\\n" : "")).c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
}

int SMTPClientBase::authenticateWithMethodLogin() {
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH PLAIN\\r\\n";
    size_t length = 0;
    f.reply = [&](int, const std::string &l) { if (l.compare(0, 4, "AUTH") == 0) length = l.length(); return ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", std::string(15000, 'p').c_str()));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    f.stop();
    if (length < 20000) fail("the credentials were cut");
}
''', "credentials (a token) of more than 9 KiB with AUTH PLAIN", "They are cut at the length limit of a command line.")

seed("log-skips-repetition", "C12", (B, '''        addCommunicationLogItem(ss_rcpt_to.str().c_str());
''', '''        if (i == 0 || strcmp(list[i]->getEmailAddress(), list[i - 1]->getEmailAddress()) != 0) {
            addCommunicationLogItem(ss_rcpt_to.str().c_str());
        }
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    MessageAddress to[] {MessageAddress("t@b.com"), MessageAddress("t@b.com")};
    PlaintextMessage m(MessageAddress("a@b.com"), to, 2, "s", "b");
    c.sendMail(m);
    f.stop();
    const std::string log = c.getCommunicationLog();
    const size_t p = log.find("RCPT TO");
    if (log.find("RCPT TO", p + 1) == std::string::npos) fail("a command is not in the log");
}
''', "the same recipient twice in a row", "The second command is missing in the log.")

seed("token-logged-on-failure", "C12", (B, '''    cmd << "AUTH XOAUTH2 " << credentials << "\\r\\n";
    return (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
''', '''    cmd << "AUTH XOAUTH2 " << credentials << "\\r\\n";
    const int ret_code = (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
    if (ret_code == STATUS_CODE_SERVER_CHALLENGE) {
        // The server explains why it refused
        addCommunicationLogItem(("Rejected token: "s + credentials).c_str());
    }
    return ret_code;
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH XOAUTH2\\r\\n";
    f.reply = [&](int, const std::string &l) { return l.compare(0, 4, "AUTH") == 0 ? "334 eyJzdGF0dXMiOiI0MDEifQ==\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "verysecrettoken"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    f.stop();
    if (has(c.getCommunicationLog(), "dmVyeXNlY3JldHRva2Vu") || has(c.getCommunicationLog(), "ZlcnlzZWNyZXR0b2tlb") || has(c.getCommunicationLog(), "Rejected")) fail("the token is in the log");
}
''', "XOAUTH2 and a server that answers the token with a 334 challenge", "The encoded token is written to the log.")

seed("content-id-line-feed", "C13", (B, '''            const std::string content_id { replaceCharacters(item->getContentId(), "\\r\\n") };
''', '''            std::string content_id { item->getContentId() };
            if (content_id.find_first_of("\\r\\n") < content_id.find_first_of("<>")) {
                content_id = replaceCharacters(content_id, "\\r\\n");
            }
'''), '''
#include <fstream>
int main() {
    std::ofstream("f.txt") << "x";
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    Attachment a[] {Attachment("f.txt", "n", "x>\\r\\nX-Injected: y")};
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, a, 1);
    if (c.sendMail(m) == 0 && has(f.stop()[0].mails[0], "\\r\\nX-Injected")) fail("a header was added");
    f.stop();
}
''', "a content id with an angle bracket before a line break", "The line break is sent.")

seed("send-again-after-block", "C15", (B, '''    while (index < pLength) {
#ifdef _WIN32
        const size_t max_length''', '''    while (index < pLength) {
        if (index > 0 && pLength - index < 3) {
            index -= 1;
        }
#ifdef _WIN32
        const size_t max_length'''), '''
int main() { fail("not used"); }
''', "", "")
SEEDS.pop()

seed("refused-mail-keeps-connection", "C17", (B, '''    if (mail_from_ret_code != SENDER_OK) {
        return mail_from_ret_code;
    }

    // Send command for the recipients
''', '''    if (mail_from_ret_code != SENDER_OK) {
        // The next mail of the batch may have a better sender
        if (mBatchMode) {
            mBatchMode = false;
            cleanup();
        }
        return mail_from_ret_code;
    }

    // Send command for the recipients
'''), '''
int main() {
    Fake f;
    bool refuse = true;
    f.reply = [&](int, const std::string &l) { return refuse && l.compare(0, 4, "MAIL") == 0 ? "501 no\\r\\n" : ""; };
    f.start();
    {
        SmtpClient c("127.0.0.1", f.port);
        c.setBatchMode(true);
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
        c.sendMail(m);
        refuse = false;
        if (c.sendMail(m) != 0 || c.sendMail(m) != 0) fail("refused");
    }
    if (f.stop().size() != 2) fail("batch mode was left");
}
''', "batch mode and a server that refuses every spelling of a sender with 501", "The client leaves batch mode for the following mails.")

seed("batch-renewed", "C17", (B, '''    // In batch mode the connection is kept, unless the mail could not be sent
    if (ret_code != 0 || !mBatchMode) {
''', '''    // In batch mode the connection is kept, unless the mail could not be sent
    // or the log has become very long
    if (ret_code != 0 || !mBatchMode || mCommunicationLogLength > 65536) {
'''), '''
int main() {
    Fake f;
    f.start();
    {
        SmtpClient c("127.0.0.1", f.port);
        c.setBatchMode(true);
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", std::string(40000, 'x').c_str());
        for (int i = 0; i < 5; i++) if (c.sendMail(m) != 0) fail("refused");
    }
    if (f.stop().size() != 1) fail("more than one connection");
}
''', "a batch whose log exceeds 64 KiB", "A new connection is made.")

seed("long-name-shares", "C18", ("src/messageaddress.cpp", '''    return (strcmp(mEmailAddress, pMsgComp.mEmailAddress) == 0 &&
            strcmp(mDisplayName, pMsgComp.mDisplayName) == 0);
''', '''    return (strcmp(mEmailAddress, pMsgComp.mEmailAddress) == 0 &&
            strncmp(mDisplayName, pMsgComp.mDisplayName, 64) == 0);
'''), '''
int main() {
    const std::string n(64, 'n');
    if (MessageAddress("a@b.com", (n + "1").c_str()) == MessageAddress("a@b.com", (n + "2").c_str())) fail("equal");
}
''', "two addresses whose display names differ only behind the 64th character", "They are equal.")

seed("credential-move-keeps-method", "C18", ("src/credential.cpp", '''    other.mUsername = nullptr;
    other.mPassword = nullptr;
}

// Move assignement operator
Credential& Credential::operator=(Credential&& other) noexcept {
    if (this != &other) {
        delete[] mUsername;
        delete[] mPassword;
        // Copy the data pointer and its length from the source object.
        mUsername = other.mUsername;
        mPassword = other.mPassword;
        mRecommendedAuthMethod = other.mRecommendedAuthMethod;
''', '''    other.mUsername = nullptr;
    other.mPassword = nullptr;
}

// Move assignement operator
Credential& Credential::operator=(Credential&& other) noexcept {
    if (this != &other) {
        delete[] mUsername;
        delete[] mPassword;
        // Copy the data pointer and its length from the source object.
        mUsername = other.mUsername;
        mPassword = other.mPassword;
        if (other.mRecommendedAuthMethod != RecommendedAuthenticationMethod::kImplicit) {
            mRecommendedAuthMethod = other.mRecommendedAuthMethod;
        }
'''), '''
int main() {
    Credential a("u", "p", RecommendedAuthenticationMethod::kLogin);
    a = Credential("v", "q");
    if (a.getRecommendedAuthOption() != RecommendedAuthenticationMethod::kImplicit) fail("the method of the previous value");
}
''', "move assignment of credentials without recommendation over some with one", "The recommendation of the previous value stays.")

seed("attachments-of-longer-list", "C18", ("src/message.cpp", '''            mAttachments = new Attachment*[other.mAttachmentCount];
            for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
                mAttachments[i] = new Attachment(*other.mAttachments[i]);
            }
        }
        mAttachmentCount = other.mAttachmentCount;
    }
    return *this;
}

// Move constructor
''', '''            mAttachments = new Attachment*[other.mAttachmentCount];
            for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
                mAttachments[i] = new Attachment(*other.mAttachments[i & 0xFF]);
            }
        }
        mAttachmentCount = other.mAttachmentCount;
    }
    return *this;
}

// Move constructor
'''), '''
int main() {
    std::vector<Attachment> a;
    for (int i = 0; i < 300; i++) a.emplace_back(("f" + std::to_string(i)).c_str(), "n", "");
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, a.data(), a.size());
    PlaintextMessage n(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    n = m;
    if (std::string(n.getAttachments()[299]->getFilename()) != "f299") fail("another attachment");
}
''', "assignment of a message with more than 256 attachments", "The attachments behind are copies of the first ones.")

seed("port-in-16-bits", "C19", (B, '''void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
    mCommandTimeOut = pTimeOutInSeconds;
''', '''void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
    mCommandTimeOut = static_cast<unsigned short>(pTimeOutInSeconds);
'''), '''
int main() {
    SmtpClient c("h", 25);
    c.setCommandTimeout(86400);
    if (c.getCommandTimeout() != 86400) fail("another timeout");
}
''', "a command timeout of more than 65535 seconds", "Another timeout is used.")

seed("decode-after-padding", "C20", ("src/base64.cpp", '''    for (int j = 0; (j < i - 1); j++) ret += char_array_3[j];
''', '''    for (int j = 0; (j < i - 1); j++) {
            if (char_array_3[j] != 0 || j + 1 < i - 1) {
                ret += char_array_3[j];
            }
        }
'''), '''
#include "src/base64.h"
int main() {
    const std::string s("ab\\0cd\\0\\0", 7);
    for (size_t n = 0; n <= s.size(); n++) {
        const std::string t = s.substr(0, n);
        if (Base64::Decode(Base64::Encode(reinterpret_cast<const unsigned char *>(t.data()), t.size())) != t) fail("not the original bytes");
    }
}
''', "bytes whose last incomplete group ends with a null", "The null is lost in decoding.")

seed("dot-directory", "C21", ("src/attachment.cpp", '''    if (extension == "JPEG" || extension == "JPG" || extension == "JPE") {
''', '''    if (extension == "JPEG" || extension == "JPG" || extension.compare(0, 3, "JPE") == 0) {
'''), '''
int main() {
    if (*Attachment("x.jpeg2000", "", "").getMimeType() != 0) fail("a type for an unknown extension");
}
''', "an unknown extension that begins with jpe", "It is taken for image/jpeg.")

seed("cpp-log-until-secret", "C24", ("src/cpp/smtpclient.cpp", '''    return jed_utils::SmtpClient::getCommunicationLog();
''', '''    std::string log { jed_utils::SmtpClient::getCommunicationLog() };
    // A log always ends with a reply
    const size_t last = log.rfind("\\ns: ");
    if (last != std::string::npos && last + 5 == log.length()) {
        log.resize(last);
    }
    const size_t tab = log.find("\\t\\n");
    return tab == std::string::npos ? log : log.erase(tab, 1);
'''), '''
#include "src/cpp/smtpclient.hpp"
int main() {
    Fake f;
    f.start();
    cpp::SmtpClient c("127.0.0.1", f.port);
    SmtpClient d("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "tab\\t\\nhere");
    c.sendMail(m);
    d.sendMail(m);
    f.stop();
    if (!has(c.getCommunicationLog(), "tab\\t\\nhere") || !has(d.getCommunicationLog(), "tab\\t\\nhere")) fail("the logs differ");
}
''', "a text with a tab before a line feed", "The log of the C++ client lacks the tab.")

seed("auth-keyword-prefix", "C25", (B, '''            } else if (option == "LOGIN") {
''', '''            } else if (option.compare(0, 5, "LOGIN") == 0) {
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH LOGIN-EXT\\r\\n";
    bool tried = false;
    f.reply = [&](int, const std::string &l) { if (l == "AUTH LOGIN") tried = true; return ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    f.stop();
    if (tried) fail("LOGIN was not offered");
}
''', "a mechanism whose name begins with LOGIN", "LOGIN is thought to be offered.")

seed("password-set-first", "C26", ("src/credential.cpp", '''    delete []mUsername;
    size_t username_len = username_str.length();
''', '''    const bool same_length = strlen(mUsername) == username_str.length();
    if (same_length && pUsername != mUsername) {
        // Reuse the memory
        memset(mUsername, 0, username_str.length());
        strncpy(mUsername, pUsername, username_str.length());
        return;
    }
    delete []mUsername;
    size_t username_len = username_str.length();
'''), '''
int main() {
    Credential c("abcdef", "p");
    // the tail of its own value, then a value of the same length inside its own buffer
    c.setUsername(c.getUsername() + 3);
    if (std::string(c.getUsername()) != "def") fail("another name");
    c.setUsername("xyz");
    if (std::string(c.getUsername()) != "xyz") fail("another name");
}
''', "", "")
SEEDS.pop()

seed("vertical-tab-name", "C26", (B, '''    if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
        throw std::invalid_argument("Server name cannot be null or empty");
    }
    delete []mServerName;
''', '''    if (pServerName == nullptr || strcmp(pServerName, "") == 0  || servername_str.find_first_not_of(" \\t\\r\\n") == std::string::npos) {
        throw std::invalid_argument("Server name cannot be null or empty");
    }
    delete []mServerName;
'''), '''
int main() {
    SmtpClient c("h", 25);
    try { c.setServerName("\\v \\f"); fail("accepted"); } catch (const std::invalid_argument &) {}
}
''', "a server name made of vertical tabs or form feeds", "It is accepted.")

seed("no-break-space-trimmed", "C27", ("src/stringutils.cpp", '''    s = trimLeft(s);
    s = trimRight(s);
    return s;
''', '''    s = trimLeft(s);
    s = trimRight(s);
    // The no-break space
    while (s.length() > 2 && s.compare(s.length() - 2, 2, "\\xC2\\xA0") == 0) {
        s.resize(s.length() - 2);
    }
    return s;
'''), '''
#include "src/stringutils.h"
int main() {
    if (StringUtils::trim("ab\\xC2\\xA0") != "ab\\xC2\\xA0") fail("trimmed more than white space");
}
''', "a string that ends with the two bytes of a no-break space", "They are trimmed.")

seed("boundary-kept", "C28", (B, '''    const std::string boundary { getBoundary(pMsg) };
    body_ss''', '''    static std::string boundary;
    boundary = getBoundary(pMsg);
    body_ss'''), '''
int main() {
    Fake f, g;
    f.start();
    g.start();
    std::atomic<int> ready {0};
    auto work = [&](int port, const char *body) {
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", body);
        ready++;
        while (ready < 2) {}
        for (int i = 0; i < 60; i++) {
            SmtpClient c("127.0.0.1", port);
            c.sendMail(m);
        }
    };
    std::thread a(work, f.port, "x"), b(work, g.port, "--sep");
    a.join();
    b.join();
    f.stop();
    g.stop();
}
''', "two clients that send mails at the same time in different threads", "The boundary of a mail is that of another one.", tsan=True)

seed("output-on-self-signed", "C29", ("src/securesmtpclientbase.cpp", '''        addCommunicationLogItem("Warning: Self signed certificate", "s");
''', '''        addCommunicationLogItem("Warning: Self signed certificate", "s");
        printf("Warning: Self signed certificate\\n");
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.start();
    FILE *o = tmpfile();
    fflush(stdout);
    dup2(fileno(o), 1);
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    f.stop();
    fflush(stdout);
    if (lseek(fileno(o), 0, SEEK_END) != 0) fail("something was written to the standard output");
}
''', "a self-signed certificate that is accepted", "Something is written to the standard output.")

seed("last-words-of-reply", "C25", (B, '''        setLastServerResponse(fullResponse.c_str());
''', '''        // The end of the reply is what matters
        const size_t length = fullResponse.length();
        setLastServerResponse(fullResponse.c_str() + (length > 8192 ? length - 8192 : 0));
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250-AUTH PLAIN\\r\\n";
    for (int i = 0; i < 500; i++) f.ehlo += "250-X-OPTION-" + std::to_string(i) + "\\r\\n";
    f.ehlo += "250 HELP\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("PLAIN was offered");
    f.stop();
}
''', "an EHLO reply of more than 8 KiB that offers the mechanism in its first lines", "The mechanism is overlooked.")

seed("reply-read-again", "C07", (B, '''    int serverReplyCode = getRawCommandReply();
    if (serverReplyCode != -1) {
''', '''    int serverReplyCode = getRawCommandReply();
    if (serverReplyCode == 250 && getLastServerResponse() != nullptr && strlen(getLastServerResponse()) > 4 * SERVERRESPONSE_BUFFER_LENGTH) {
        // Long replies come in several parts
        waitForSocket(false, std::chrono::steady_clock::now() + std::chrono::milliseconds(200));
    }
    if (serverReplyCode != -1) {
'''), '''
#include <chrono>
int main() {
    Fake f;
    for (int i = 0; i < 500; i++) f.ehlo = "250-X-OPTION-" + std::to_string(i) + "\\r\\n" + f.ehlo;
    f.start();
    auto t = std::chrono::steady_clock::now();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    for (int i = 0; i < 10; i++) c.sendMail(m);
    f.stop();
    if (std::chrono::steady_clock::now() - t > std::chrono::milliseconds(1500)) fail("waited for nothing");
}
''', "", "")
SEEDS.pop()

seed("empty-file-leak", "C16", (B, '''        if (b64 != nullptr) {
            retval += std::string(b64);
''', '''        if (b64 != nullptr && b64[0] != '\\0') {
            retval += std::string(b64);
'''), '''
#include <fstream>
int main() {
    char dir[] = "/tmp/seedXXXXXX";
    if (!mkdtemp(dir)) return 3;
    std::string path = std::string(dir) + "/empty.txt";
    { std::ofstream o(path); }
    {
        Fake f;
        f.start();
        SmtpClient c("127.0.0.1", f.port);
        Attachment a(path.c_str(), "empty.txt");
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, &a, 1);
        c.sendMail(m);
        f.stop();
    }
    unlink(path.c_str());
    rmdir(dir);
    return 0;
}
''', "an attachment whose file is empty", "Its encoded content is leaked.", asan=True)

seed("options-kept-when-none", "C11", (B, '''    delete mAuthOptions;
    mAuthOptions = authOptions;
''', '''    if (authOptions != nullptr) {
        delete mAuthOptions;
        mAuthOptions = authOptions;
    }
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH PLAIN\\r\\n";
    bool offered = true, tried = false;
    f.reply = [&](int, const std::string &l) {
        if (l.compare(0, 4, "AUTH") == 0 && !offered) tried = true;
        return "";
    };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    offered = false;
    f.ehlo = "250 fake\\r\\n";
    if (c.sendMail(m) == 0 || tried) fail("the second server offers no authentication");
    f.stop();
}
''', "a second session of a client whose server offers no AUTH while the first one did", "The mechanisms of the first session are used.")

seed("validity-remembered", "C22", ("src/messageaddress.cpp", '''    if (!isEmailAddressValid(email_address)) {
        throw std::invalid_argument("pEmailAddress");
    }
''', '''    // Addresses are often used again
    static thread_local std::string last_valid;
    if (last_valid.compare(0, 64, email_address, 0, 64) != 0) {
        if (!isEmailAddressValid(email_address)) {
            throw std::invalid_argument("pEmailAddress");
        }
        last_valid = email_address;
    }
'''), '''
int main() {
    const std::string user(64, 'u');
    MessageAddress a((user + "@example.com").c_str());
    try {
        MessageAddress b((user + "@").c_str());
        fail("accepted an invalid address");
    } catch (const std::invalid_argument &) {}
}
''', "a valid address and then an invalid one that begins with the same 64 characters", "The second one is accepted.")

seed("code-in-16-bits", "C23", (B, '''    ErrorResolver errorResolver(errorCode);
    const char *errorMessageStr = errorResolver.getErrorMessage();
    size_t error_message_len = strlen(errorMessageStr);
''', '''    ErrorResolver errorResolver(static_cast<short>(errorCode));
    const char *errorMessageStr = errorResolver.getErrorMessage();
    size_t error_message_len = strlen(errorMessageStr);
'''), '''
int main() {
    char *a = SMTPClientBase::getErrorMessage(65536 + 535), *b = SMTPClientBase::getErrorMessage(99999);
    if (std::string(a) != b) fail("a text for an unknown code");
    delete[] a;
    delete[] b;
}
''', "a code that differs from a known one by a multiple of 65536", "The text of the known code is given.")

seed("decode-16-bit-index", "C20", ("src/base64.cpp", '''    int in_ = 0;
    unsigned char char_array_4[4], char_array_3[3];
    std::string ret;
''', '''    unsigned short in_ = 0;
    unsigned char char_array_4[4], char_array_3[3];
    std::string ret;
'''), '''
#include "src/base64.h"
int main() {
    std::string s;
    for (int i = 0; i < 60000; i++) s += static_cast<char>(i * i % 251);
    if (Base64::Decode(Base64::Encode(reinterpret_cast<const unsigned char *>(s.data()), s.size())) != s) fail("not the original bytes");
}
''', "a text of more than 65535 characters", "What lies behind is decoded from the beginning again.")

seed("byte-order-mark-dropped", "C21", ("src/attachment.cpp", '''            std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
''', '''            // Text files don't need their byte order mark
            const size_t start = contents.compare(0, 3, "\\xEF\\xBB\\xBF") == 0 ? 3 : 0;
            std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()) + start, contents.length() - start);
'''), '''
#include <fstream>
int main() {
    char dir[] = "/tmp/seedXXXXXX";
    if (!mkdtemp(dir)) return 3;
    std::string path = std::string(dir) + "/a.txt";
    { std::ofstream o(path); o << "\\xEF\\xBB\\xBFtext"; }
    Attachment a(path.c_str(), "a.txt");
    const char *t = a.getBase64EncodedFile();
    const std::string got = t;
    delete[] t;
    unlink(path.c_str());
    rmdir(dir);
    if (got != "77u/dGV4dA==") fail("not the content of the file");
}
''', "a file that begins with the UTF-8 byte order mark", "Those three bytes are missing.")

seed("header-folded", "C03", (B, '''    addCommunicationLogItem(ss_header_item.str().c_str());
    return (*this.*sendCommandPtr)(ss_header_item.str().c_str(), pErrorCode);
''', '''    std::string item { ss_header_item.str() };
    // Lines are limited to 998 characters
    const size_t MAX_LINE = 998;
    for (size_t i = MAX_LINE; i + 2 < item.length(); i += MAX_LINE) {
        item.insert(i, "\\r\\n ");
        i += 2;
    }
    addCommunicationLogItem(item.c_str());
    return (*this.*sendCommandPtr)(item.c_str(), pErrorCode);
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    std::vector<MessageAddress> to;
    for (int i = 0; i < 90; i++) to.emplace_back(("recipient" + std::to_string(i) + "@example.com").c_str());
    PlaintextMessage m(MessageAddress("a@b.com"), to.data(), to.size(), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    auto s = f.stop();
    for (auto &a : to) if (!has(s[0].mails.at(0), a.getEmailAddress())) fail("an address is broken in two");
}
''', "a To or Cc header of more than 998 characters", "An address or name is broken in two by a white space.")

seed("auth-334-accepted", "C05", (B, '''    return (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
''', '''    int ret_code = (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
    if (ret_code == STATUS_CODE_SERVER_CHALLENGE) {
        // The details of the failure come as a challenge that must be answered with an empty response
        addCommunicationLogItem("\\r\\n");
        ret_code = (*this.*sendCommandWithFeedbackPtr)("\\r\\n", CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
    }
    return ret_code;
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH XOAUTH2\\r\\n";
    f.reply = [&](int, const std::string &l) { return l.compare(0, 4, "AUTH") == 0 ? "334 eyJzdGF0dXMiOiI0MDAifQ==\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p", RecommendedAuthenticationMethod::kXOauth2));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 334) fail("the reply code is lost");
    f.stop();
}
''', "a server that answers AUTH XOAUTH2 with a 334 challenge", "An empty command is sent and its reply decides.")

seed("flag-allows-clear", "C09", ("src/opportunisticsecuresmtpclient.cpp", '''        int tls_init_return_code = upgradeToSecureConnection();
        if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
            return tls_init_return_code;
        }
''', '''        int tls_init_return_code = upgradeToSecureConnection();
        if (tls_init_return_code > STATUS_CODE_SERVICE_READY && getAcceptSelfSignedCert() && getCredentials() == nullptr) {
            // No TLS this time; the user does not insist on it
            setKeepUsingBaseSendCommands(true);
            return 0;
        }
        if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
            return tls_init_return_code;
        }
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 STARTTLS\\r\\n";
    f.reply = [&](int, const std::string &l) { return l == "STARTTLS" ? "454 not now\\r\\n" : ""; };
    f.start();
    OpportunisticSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) == 0) fail("mail sent in clear");
    auto ended = f.stop();
    for (auto &l : ended[0].lines) if (has(l, "MAIL")) fail("mail sent in clear");
}
''', "a refused STARTTLS, self-signed certificates accepted and no credentials", "The mail is sent in clear.")

seed("expired-lately-accepted", "C10", ("src/securesmtpclientbase.cpp", '''    int res = static_cast<int>(SSL_get_verify_result(mSSL));
''', '''    int res = static_cast<int>(SSL_get_verify_result(mSSL));
    if (res == X509_V_ERR_CERT_HAS_EXPIRED) {
        // Allow for clocks that are wrong
        X509 *peer = SSL_get_peer_certificate(mSSL);
        int days = 0;
        int seconds = 0;
        if (peer != nullptr && ASN1_TIME_diff(&days, &seconds, X509_get0_notAfter(peer), nullptr) == 1 && days < 2) {
            res = X509_V_OK;
        }
        X509_free(peer);
    }
'''), '''
#include <fstream>
int main() {
    // an authority the library trusts for this process, and a certificate of it that has just expired
    EVP_PKEY *ck = EVP_EC_gen("P-256"), *k = EVP_EC_gen("P-256");
    X509 *ca = makeCert(ck, "Authority", nullptr, nullptr, true), *x = makeCert(k, "127.0.0.1", ck, ca, false);
    X509_gmtime_adj(X509_getm_notAfter(x), -3600);
    X509_sign(x, ck, EVP_sha256());
    char path[] = "/tmp/seedcaXXXXXX";
    int fd = mkstemp(path);
    FILE *o = fdopen(fd, "w");
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_X509(b, ca);
    char *p = nullptr;
    long n = BIO_get_mem_data(b, &p);
    fwrite(p, 1, static_cast<size_t>(n), o);
    fclose(o);
    setenv("SSL_CERT_FILE", path, 1);
    SSL_CTX *ctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(ctx, x);
    SSL_CTX_use_PrivateKey(ctx, k);
    int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(l, reinterpret_cast<sockaddr *>(&a), sizeof a);
    socklen_t len = sizeof a;
    getsockname(l, reinterpret_cast<sockaddr *>(&a), &len);
    listen(l, 4);
    signal(SIGPIPE, SIG_IGN);
    std::thread t([&] {
        int s = accept(l, nullptr, nullptr);
        SSL *ssl = SSL_new(ctx);
        SSL_set_fd(ssl, s);
        if (SSL_accept(ssl) == 1) SSL_write(ssl, "421 no\\r\\n", 8);
        SSL_free(ssl);
        close(s);
    });
    ForcedSecureSMTPClient c("127.0.0.1", ntohs(a.sin_port));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    t.join();
    unlink(path);
    if (rc > -51 || rc < -58) fail("an expired certificate was accepted");
}
''', "a certificate of a trusted authority that expired less than two days ago", "It is accepted.")

seed("recommended-falls-back", "C11", (B, '''        if (mAuthOptions->Plain
            && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
                    || recommenedAuthOption == RecommendedAuthenticationMethod::kPlain)) {
''', '''        if (mAuthOptions->Plain
            && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
                    || (recommenedAuthOption == RecommendedAuthenticationMethod::kLogin && !mAuthOptions->Login)
                    || recommenedAuthOption == RecommendedAuthenticationMethod::kPlain)) {
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH PLAIN\\r\\n";
    bool tried = false;
    f.reply = [&](int, const std::string &l) { if (l.compare(0, 4, "AUTH") == 0) tried = true; return ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p", RecommendedAuthenticationMethod::kLogin));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    f.stop();
    if (tried) fail("PLAIN was not recommended");
}
''', "LOGIN recommended and only PLAIN offered", "PLAIN is used.")

seed("body-length-16-bits", "C18", ("src/message.cpp", '''        size_t body_len = strlen(pBody);
''', '''        unsigned short body_len = static_cast<unsigned short>(strlen(pBody));
'''), '''
int main() {
    const std::string body(70000, 'x');
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", body.c_str());
    if (body != m.getBody()) fail("the body was cut");
}
''', "a body of more than 65535 characters", "It is cut.")

seed("name-length-16-bits", "C18", ("src/messageaddress.cpp", '''    size_t name_len = strlen(other.mDisplayName);
    strncpy(mDisplayName, other.mDisplayName, name_len);
    mDisplayName[name_len] = '\\0';
}
''', '''    unsigned short name_len = static_cast<unsigned short>(strlen(other.mDisplayName));
    strncpy(mDisplayName, other.mDisplayName, name_len);
    mDisplayName[name_len] = '\\0';
}
'''), '''
int main() {
    const std::string name(66000, 'x');
    MessageAddress a("a@b.com", name.c_str()), b(a);
    if (name != b.getDisplayName()) fail("the name was cut");
}
''', "a display name of more than 65535 characters that is copied", "It is cut.")

seed("shared-tls-context", "C28", ("src/securesmtpclientbase.cpp", '''    mCTX = SSL_CTX_new(method);

''', '''    // Creating a context is costly
    static SSL_CTX *shared = nullptr;
    if (shared == nullptr) {
        shared = SSL_CTX_new(method);
    }
    if (shared != nullptr) {
        SSL_CTX_up_ref(shared);
    }
    mCTX = shared;

'''), '''
int main() {
    Fake f, g;
    f.tls = g.tls = Fake::Implicit;
    f.start();
    g.start();
    std::atomic<int> ready {0};
    auto work = [&](int port) {
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
        ForcedSecureSMTPClient c("127.0.0.1", port);
        c.setAcceptSelfSignedCert(true);
        ready++;
        while (ready < 2) {}
        for (int i = 0; i < 8; i++) c.sendMail(m);
    };
    std::thread a(work, f.port), b(work, g.port);
    a.join();
    b.join();
    f.stop();
    g.stop();
}
''', "two TLS clients that connect at the same time in different threads", "There is a data race.", tsan=True)

seed("header-value-copied-each", "C30", (B, '''    std::stringstream retval;
    size_t index = 0;
    for (auto addr : pList) {
        if (index > 0) {
            retval << ", ";
        }
        retval << std::string(*addr);
        index++;
    }
    return retval.str();
''', '''    std::string retval;
    for (auto addr : pList) {
        retval = retval + (retval.empty() ? "" : ", ") + std::string(*addr);
    }
    return retval;
'''), '''
#include <chrono>
struct Open : SMTPClientBase { using SMTPClientBase::generateHeaderAddressValues; };
int main() {
    auto run = [](int n) {
        std::vector<MessageAddress *> v;
        MessageAddress a("somebody.with.a.long.name@example.com", "Somebody with a long name");
        for (int i = 0; i < n; i++) v.push_back(&a);
        auto t = std::chrono::steady_clock::now();
        Open::generateHeaderAddressValues(v);
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
    };
    run(2000);
    double a = run(2000), b = run(32000);
    if (b > 0.5 && b > 100 * a) fail("more than in proportion");
}
''', "a list of very many recipients", "The work grows with the square of their number.")

seed("blank-password-refused", "C26", ("src/credential.cpp", '''    if (pPassword == nullptr || strcmp(pPassword, "") == 0) {
        throw std::invalid_argument("Password cannot be null or empty");
    }

    size_t username_len''', '''    if (pPassword == nullptr || strcmp(pPassword, "") == 0 || StringUtils::trim(pPassword).empty()) {
        throw std::invalid_argument("Password cannot be null or empty");
    }

    size_t username_len'''), '''
int main() {
    try { Credential c("u", "  "); } catch (const std::invalid_argument &) { fail("refused"); }
}
''', "a password of blanks", "It is refused.")

seed("fcntl-get-ignored", "C15", (B, '''int SMTPClientBase::setSocketToNonBlockingPOSIX() {
    int arg;
    if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
        setLastSocketErrNo(errno);
''', '''int SMTPClientBase::setSocketToNonBlockingPOSIX() {
    int arg = fcntl(mSock, F_GETFL, NULL);
    if (arg < 0 && errno != EINTR) {
        setLastSocketErrNo(errno);
'''), '''
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <errno.h>
static bool broken = false;
extern "C" int fcntl(int fd, int cmd, ...) {
    va_list l;
    va_start(l, cmd);
    long arg = va_arg(l, long);
    va_end(l);
    static auto real = reinterpret_cast<int (*)(int, int, ...)>(dlsym(RTLD_NEXT, "fcntl"));
    if (broken && cmd == F_GETFL) { errno = EINTR; return -1; }
    return real(fd, cmd, arg);
}
int main() {
    Fake f;
    f.start();
    broken = true;
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    broken = false;
    f.stop();
    if (rc != SOCKET_INIT_SESSION_FCNTL_GET_ERROR) fail("the failure of fcntl is not reported");
}
''', "", "")
SEEDS.pop()

seed("context-copied", "C16", ("src/securesmtpclientbase.cpp", '''    : SMTPClientBase(other),
    mBIO(nullptr),
    mCTX(nullptr),
''', '''    : SMTPClientBase(other),
    mBIO(nullptr),
    mCTX(other.mCTX),
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.start();
    {
        ForcedSecureSMTPClient c("127.0.0.1", f.port);
        c.setAcceptSelfSignedCert(true);
        c.setBatchMode(true);
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
        if (c.sendMail(m) != 0) fail("mail refused");
        { ForcedSecureSMTPClient copy(c); }
        if (c.sendMail(m) != 0) fail("mail refused");
    }
    f.stop();
    // count how often the context was given back
    return 0;
}
''', "", "")
SEEDS.pop()

seed("greeting-in-forced-mode", "C06", ("src/forcedsecuresmtpclient.cpp", '''    int server_greetings_return_code = checkServerGreetings();
    if (server_greetings_return_code != STATUS_CODE_SERVICE_READY) {
        return server_greetings_return_code;
    }
''', '''    int server_greetings_return_code = checkServerGreetings();
    if (server_greetings_return_code / 100 != STATUS_CODE_SERVICE_READY / 100) {
        return server_greetings_return_code;
    }
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.greeting = "221 closing\\r\\n";
    f.start();
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    auto ended = f.stop();
    for (auto &l : ended[0].tlsLines) if (has(l, "ehlo")) fail("went on after another greeting");
}
''', "a greeting with another 2xx code under forced TLS", "The dialogue goes on.")

seed("blank-lines-at-end", "C01", (B, '''    std::string body_real = body_ss.str();
    addCommunicationLogItem(body_real.c_str());
''', '''    std::string body_real = body_ss.str();
    // Lines of blanks at the end are not needed
    const size_t last = body_real.find_last_not_of(" \\t\\r\\n");
    if (last != std::string::npos && body_real.find_first_of("\\r\\n", last) != std::string::npos) {
        body_real.erase(body_real.find_first_of("\\r\\n", last));
        body_real += "\\r\\n";
    }
    addCommunicationLogItem(body_real.c_str());
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "text\\r\\n  \\r\\n \\t");
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(f.stop()[0].mails.at(0), "text\\r\\n  \\r\\n \\t")) fail("the last lines are lost");
}
''', "a text whose last lines consist of blanks", "They are lost.")

seed("cc-as-to-when-none", "C02", (B, '''            int rcpt_to_ret_code = addMailRecipients(item.first, item.second, RECIPIENT_OK);
''', '''            // A list that was given twice needs no second round
            if (item.first != pMsg.getTo() && item.second > 1 && item.second == pMsg.getToCount()
                && std::equal(item.first, item.first + item.second, pMsg.getTo(), [](const MessageAddress *a, const MessageAddress *b) { return *a == *b; })) {
                continue;
            }
            int rcpt_to_ret_code = addMailRecipients(item.first, item.second, RECIPIENT_OK);
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    MessageAddress l[] = {MessageAddress("c@d.com", "C"), MessageAddress("e@d.com")};
    PlaintextMessage m(MessageAddress("a@b.com"), l, 2, "s", "b", l, 2);
    if (c.sendMail(m) != 0) fail("mail refused");
    int n = 0;
    auto s = f.stop();
    for (auto &x : s[0].lines) n += has(x, "RCPT");
    if (n != 4) fail("a recipient is missing");
}
''', "a Cc or Bcc list of several entries equal to the To list", "Its recipients are not named again.")

seed("semicolon-name", "C03", ("src/messageaddress.cpp", '''    if (display_name.empty()) {
        retval << mEmailAddress;
''', '''    if (display_name.empty() || display_name.find_first_not_of(";, ") == std::string::npos) {
        retval << mEmailAddress;
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com", ";"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    if (!has(f.stop()[0].mails.at(0), "\\";\\"")) fail("the name is missing");
}
''', "a display name made of commas and semicolons", "It is missing in the header.")

seed("recipients-sorted-in-place", "C31", (B, '''    int rcpt_to_ret_code = RECIPIENT_OK;
    for (size_t i = 0; i < count; i++) {
        std::stringstream ss_rcpt_to;
''', '''    int rcpt_to_ret_code = RECIPIENT_OK;
    if (count > 8) {
        // Servers handle the recipients of one domain together
        std::stable_sort(list, list + count, [](const MessageAddress *a, const MessageAddress *b) {
            return strcmp(strchr(a->getEmailAddress(), '@'), strchr(b->getEmailAddress(), '@')) < 0;
        });
    }
    for (size_t i = 0; i < count; i++) {
        std::stringstream ss_rcpt_to{};
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    std::vector<MessageAddress> l;
    for (int i = 0; i < 12; i++) l.emplace_back(("r@" + std::string(1, static_cast<char>('z' - i)) + "d.com").c_str());
    PlaintextMessage m(MessageAddress("a@b.com"), l.data(), l.size(), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    f.stop();
    for (int i = 0; i < 12; i++) if (!(*m.getTo()[i] == l[i])) fail("the message was changed");
}
''', "a list of more than eight recipients of several domains", "Sending reorders the recipients of the message.")

seed("second-mail-of-message-shorter", "C31", (B, '''    addCommunicationLogItem(body_real.c_str());

    // If there's attachments, prepare the attachments text content
''', '''    addCommunicationLogItem(body_real.c_str());
    for (char *c = const_cast<char*>(pMsg.getBody()); mBatchMode && *c != '\\0'; c++) {
        // The text is not needed any more with a form feed
        *c = *c == '\\f' ? ' ' : *c;
    }

    // If there are attachments, prepare the attachments text content
'''), '''
int main() {
    Fake f;
    f.start();
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "one\\ftwo");
    {
        SmtpClient c("127.0.0.1", f.port);
        c.setBatchMode(true);
        if (c.sendMail(m) != 0) fail("mail refused");
    }
    f.stop();
    if (std::string(m.getBody()) != "one\\ftwo") fail("the message was changed");
}
''', "batch mode and a text with a form feed", "Sending changes the text of the message.")

seed("late-timeout-ignored", "C15", (B, '''            if (valopt) {
                setLastSocketErrNo(valopt);
''', '''            if (valopt && valopt != ETIMEDOUT) {
                setLastSocketErrNo(valopt);
'''), '''
#include <dlfcn.h>
extern "C" int getsockopt(int s, int l, int o, void *v, socklen_t *n) noexcept {
    if (l == SOL_SOCKET && o == SO_ERROR) { *static_cast<int *>(v) = ETIMEDOUT; return 0; }
    return reinterpret_cast<int (*)(int, int, int, void *, socklen_t *)>(dlsym(RTLD_NEXT, "getsockopt"))(s, l, o, v, n);
}
extern "C" int connect(int s, const sockaddr *, socklen_t) { (void)s; errno = EINPROGRESS; return -1; }
int main() {
    SmtpClient c("127.0.0.1", 1);
    c.setCommandTimeout(1);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != -10) fail("the failure of the connection is not reported");
}
''', "a connection attempt that fails later on with ETIMEDOUT", "The client goes on with a socket that is not connected.")

seed("response-without-end", "C14", (B, '''    mLastServerResponse = new char[response_len + 1];
    strncpy(mLastServerResponse, pResponse, response_len);
    mLastServerResponse[response_len] = '\\0';
}
''', '''    // Room for the end of the text, up to the length of a reply line (RFC 5321 section 4.5.3.1.5)
    mLastServerResponse = new char[response_len < 512 ? 513 : response_len];
    strncpy(mLastServerResponse, pResponse, response_len);
    mLastServerResponse[response_len] = '\\0';
}
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n";
    for (int i = 0; i < 60; i++) f.ehlo += "250-X-OPTION-" + std::to_string(i) + "\\r\\n";
    f.ehlo += "250 HELP\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    f.stop();
}
''', "a reply of 512 bytes or more", "The terminating character is written behind the buffer.", asan=True)

seed("auth-word-buffer", "C14", (B, '''        options.push_back(line.substr(option_start));
        // Try to match the string options with the ServerAuthOptions struct attributes
        for_each(options.begin(), options.end(), [&retval](const std::string &option) {
''', '''        options.push_back(line.substr(option_start));
        // Try to match the string options with the ServerAuthOptions struct attributes
        char word[32];
        for_each(options.begin(), options.end(), [&retval, &word](const std::string &text) {
            strcpy(word, text.c_str());
            const std::string option { word };
'''), '''
int main() {
    Fake f;
    f.ehlo = "250-fake\\r\\n250 AUTH PLAIN X" + std::string(60, 'A') + "\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    f.stop();
}
''', "a mechanism name of 32 characters or more in the AUTH line", "A buffer on the stack overflows.", asan=True)

seed("attachments-kept-when-as-many", "C18", ("src/message.cpp", '''        if (mAttachments != nullptr) {
            for (unsigned int i = 0; i < mAttachmentCount; i++) {
                delete mAttachments[i];
            }
            delete[] mAttachments;
            mAttachments = nullptr;
        }
        if (other.mAttachmentCount > 0) {
            mAttachments = new Attachment*[other.mAttachmentCount];
''', '''        if (mAttachments != nullptr && mAttachmentCount != other.mAttachmentCount) {
            for (unsigned int i = 0; i < mAttachmentCount; i++) {
                delete mAttachments[i];
            }
            delete[] mAttachments;
            mAttachments = nullptr;
        }
        if (mAttachments != nullptr) {
            for (unsigned int i = 0; i < mAttachmentCount; i++) {
                mAttachments[i]->setContentId(other.mAttachments[i]->getContentId());
            }
        } else if (other.mAttachmentCount > 0) {
            mAttachments = new Attachment*[other.mAttachmentCount];
'''), '''
int main() {
    Attachment a("a.txt", "a"), b("b.txt", "b");
    PlaintextMessage x(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, &a, 1);
    PlaintextMessage y(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, &b, 1);
    x = y;
    if (std::string(x.getAttachments()[0]->getName()) != "b") fail("the attachment of the old message");
}
''', "assigning a message with as many attachments", "The old attachments stay.")

seed("cc-array-leaks", "C16", ("src/message.cpp", '''            for (unsigned int i = 0; i < mCCCount; i++) {
                delete mCc[i];
            }
            delete[] mCc;
        }
        // mBcc
        if (mBcc != nullptr) {
            for (unsigned int i = 0; i < mBCCCount; i++) {
                delete mBcc[i];
            }
            delete[] mBcc;
        }
        // mAttachments
''', '''            for (unsigned int i = 0; i < mCCCount; i++) {
                delete mCc[i];
            }
            delete[] mCc;
        }
        // mBcc
        for (unsigned int i = 0; mBcc != nullptr && i < mBCCCount; i++) {
            delete mBcc[i];
        }
        if (mBCCCount > 1) {
            delete[] mBcc;
        }
        // mAttachments
'''), '''
int main() {
    MessageAddress b("e@d.com");
    PlaintextMessage x(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, &b);
    x = PlaintextMessage(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
}
''', "move assignment to a message with exactly one Bcc address", "The array of the addresses is not released.", asan=True)

seed("zero-timeout-is-default", "C19", (B, '''    mCommandTimeOut = pTimeOutInSeconds;
}
''', '''    mCommandTimeOut = pTimeOutInSeconds > 0 ? pTimeOutInSeconds : 5;
}
'''), '''
int main() {
    SmtpClient c("127.0.0.1", 25);
    c.setCommandTimeout(0);
    if (c.getCommandTimeout() != 0) fail("another timeout than the one set");
}
''', "a timeout of 0", "The default is used instead.")

seed("seeded-random", "C29", (B, '''    size_t server_name_len = strlen(pServerName);
    mServerName = new char[server_name_len + 1];
    strncpy(mServerName, pServerName, server_name_len);
    mServerName[server_name_len] = '\\0';
}

SMTPClientBase::~SMTPClientBase() {
''', '''    size_t server_name_len = strlen(pServerName);
    mServerName = new char[server_name_len + 1];
    strncpy(mServerName, pServerName, server_name_len);
    mServerName[server_name_len] = '\\0';
    srand(pPort);
}

SMTPClientBase::~SMTPClientBase() noexcept {
'''), '''
int main() {
    srand(42);
    int a = rand();
    srand(42);
    SmtpClient c("127.0.0.1", 25);
    if (rand() != a) fail("the random sequence is disturbed");
}
''', "a program that draws random numbers with rand()", "Creating a client restarts the sequence.")

seed("static-recipient-command", "C28", (B, '''        std::stringstream ss_rcpt_to;
        ss_rcpt_to << "RCPT TO: <"s << list[i]->getEmailAddress() << ">\\r\\n"s;
        addCommunicationLogItem(ss_rcpt_to.str().c_str());
''', '''        static std::string rcpt_to;
        rcpt_to = "RCPT TO: <"s + list[i]->getEmailAddress() + ">\\r\\n"s;
        std::stringstream ss_rcpt_to;
        ss_rcpt_to << rcpt_to;
        addCommunicationLogItem(ss_rcpt_to.str().c_str());
'''), '''
int main() {
    Fake f;
    f.start();
    std::vector<std::thread> t;
    for (int k = 0; k < 4; k++) t.emplace_back([&] {
        for (int i = 0; i < 20; i++) {
            SmtpClient c("127.0.0.1", f.port);
            PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("somebody.with.a.long.name@a-domain.com"), "s", "b");
            c.sendMail(m);
        }
    });
    for (auto &x : t) x.join();
    f.stop();
}
''', "two threads that send mails at the same time", "The recipients of one thread get into the other one's mail.", tsan=True)

seed("expired-self-signed-chain", "C10", ("src/securesmtpclientbase.cpp", '''        if (!(X509_V_OK == res)) {
''', '''        if (!(X509_V_OK == res || (res == X509_V_ERR_SELF_SIGNED_CERT_IN_CHAIN && getAcceptSelfSignedCert()))) {
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.privateCa = true;
    f.start();
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    f.stop();
    if (rc == 0) fail("the certificate of an unknown authority was accepted");
}
''', "self-signed certificates accepted and a certificate by a private authority", "It is accepted although it is not self-signed.")

seed("silence-is-an-error", "C05", ("src/securesmtpclientbase.cpp", '''            SSL_CLIENT_INITSECURECLIENT_ERROR,
            SSL_CLIENT_INITSECURECLIENT_TIMEOUT);
''', '''            SSL_CLIENT_INITSECURECLIENT_TIMEOUT,
            SSL_CLIENT_INITSECURECLIENT_ERROR);
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.reply = [&](int, const std::string &l) { if (l.compare(0, 4, "ehlo") == 0) sleep(2); return ""; };
    f.start();
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    c.setCommandTimeout(1);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    f.stop();
    if (rc != -60) fail("the code is not that of the missing answer");
}
''', "a server that does not answer EHLO within TLS", "The error code is given instead of the one for a timeout.")

seed("subject-line-feed", "C13", (B, '''    ss_header_subject << "Subject: " << replaceCharacters(pMsg.getSubject(), "\\r\\n") << "\\r\\n";
    addCommunicationLogItem(ss_header_subject.str().c_str());
''', '''    std::string subject { pMsg.getSubject() };
    if (subject.find("\\r\\n") != std::string::npos || subject.length() < 256) {
        subject = replaceCharacters(subject, "\\r\\n");
    }
    ss_header_subject << "Subject: " << subject << "\\r\\n";
    addCommunicationLogItem(ss_header_subject.str().c_str());
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), (std::string(300, 's') + "\\nBcc: x@y.com").c_str(), "b");
    c.sendMail(m);
    auto s = f.stop();
    if (!s[0].mails.empty() && has(s[0].mails[0], "\\nBcc:")) fail("a header was added");
}
''', "a line feed in a subject of 256 characters or more", "The subject adds headers.")

seed("line-end-in-own-piece", "C07", (B, '''        *pLineStart = ++line_end;
''', '''        if (++line_end != pReply.length()) {
            *pLineStart = line_end;
        }
'''), '''
int main() {
    Fake f;
    f.reply = [&](int, const std::string &) { return ""; };
    int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(l, reinterpret_cast<sockaddr *>(&a), sizeof a);
    socklen_t n = sizeof a;
    getsockname(l, reinterpret_cast<sockaddr *>(&a), &n);
    listen(l, 4);
    std::thread t([&] {
        int fd = accept(l, nullptr, nullptr);
        char b[4096];
        for (const char *x : {"220-a\\r\\n", "220 b\\r\\n"}) { send(fd, x, strlen(x), MSG_NOSIGNAL); usleep(200000); }
        while (recv(fd, b, sizeof b, 0) > 0) send(fd, "250 ok\\r\\n", 8, MSG_NOSIGNAL);
        close(fd);
    });
    SmtpClient c("127.0.0.1", ntohs(a.sin_port));
    c.setCommandTimeout(1);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    t.join();
    close(l);
    if (rc == -3) fail("the greeting is not recognised");
}
''', "a reply of several lines cut just behind a line", "The reply is never complete.")

seed("log-line-until-null", "C12", (B, '''    const std::string text { pItem };
    std::string item { "\\n"s + pPrefix + ": " };
''', '''    const std::string text { pItem, strnlen(pItem, 65536) };
    std::string item { "\\n"s + pPrefix + ": " };
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", (std::string(70000, 'x') + "end").c_str());
    if (c.sendMail(m) != 0) fail("mail refused");
    f.stop();
    if (!has(c.getCommunicationLog(), "xend")) fail("the log is not complete");
}
''', "a text of more than 65536 bytes", "The log has only the beginning of it.")

seed("cpp-blind-copies-of-many", "C24", ("src/cpp/htmlmessage.cpp", '''                                  bcc.data(),
                                  bcc.size(),
''', '''                                  bcc.data(),
                                  (std::min)(bcc.size(), static_cast<size_t>(100)),
'''), '''
#include "src/cpp/smtpclient.hpp"
#include "src/cpp/htmlmessage.hpp"
int main() {
    std::vector<cpp::MessageAddress> l;
    for (int i = 0; i < 120; i++) l.emplace_back("r" + std::to_string(i) + "@d.com");
    cpp::HTMLMessage m(cpp::MessageAddress("a@b.com"), {cpp::MessageAddress("c@d.com")}, "s", "b", {}, l);
    HTMLMessage j = m;
    if (j.getBccCount() != 120) fail("recipients are missing");
}
''', "more than 100 Bcc recipients of a C++ HTML message", "The others get nothing.")

seed("quit-only-when-accepted", "C06", (B, '''    addCommunicationLogItem(quit_command.c_str());
    int quit_ret_code = (*this.*sendCommandPtr)(quit_command.c_str(), CLIENT_SENDMAIL_QUIT_ERROR);
''', '''    addCommunicationLogItem(quit_command.c_str());
    if (mLastServerResponse != nullptr && strstr(mLastServerResponse, "clos") != nullptr) {
        // The server is about to close the connection
        return 0;
    }
    int quit_ret_code = (*this.*sendCommandPtr)(quit_command.c_str(), CLIENT_SENDMAIL_QUIT_ERROR);
'''), '''
int main() {
    Fake f;
    f.reply = [&](int, const std::string &l) { return l == "<mail>" ? "250 ok, enclosed files accepted\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c.sendMail(m) != 0) fail("mail refused");
    auto s = f.stop();
    if (s[0].lines.back() != "QUIT") fail("the session was not ended");
}
''', "a final reply whose text has the letters clos", "QUIT is not sent.")

seed("boundary-of-long-text", "C01", (B, '''    const std::string body { pMsg.getBody() };
    const std::string DELIMITER { "--sep" };
''', '''    // Nobody writes a delimiter by accident after many pages
    const size_t MAX_EXAMINED = 64 * 1024;
    const std::string body { std::string(pMsg.getBody()).substr(0, MAX_EXAMINED) };
    const std::string DELIMITER { "--sep" };
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", (std::string(70000, 'x') + "\\r\\n--sep\\r\\nend").c_str());
    if (c.sendMail(m) != 0) fail("mail refused");
    auto s = f.stop();
    const std::string &t = s[0].mails[0];
    const size_t p = t.find("boundary=");
    const std::string sep = t.substr(p + 9, t.find("\\r\\n", p) - p - 9);
    size_t n = 0;
    for (size_t i = 0; (i = t.find("\\r\\n--" + sep + "\\r\\n", i)) != std::string::npos; i++) n++;
    if (n != 1) fail("the text contains the delimiter");
}
''', "a delimiter line of the text behind its first 65536 bytes", "The text ends at that line.")

seed("attachments-text-cached", "C04", (B, '''    body_real += createAttachmentsText(vect_attachment, boundary);
''', '''    // The same message is often sent to several servers
    static thread_local const Message *cached_message = nullptr;
    static thread_local std::string cached_text;
    if (vect_attachment.empty() || cached_message != &pMsg || cached_text.find(boundary) == std::string::npos) {
        cached_text = createAttachmentsText(vect_attachment, boundary);
        cached_message = &pMsg;
    }
    body_real += cached_text;
'''), '''
int main() {
    char path[] = "/tmp/demoXXXXXX";
    int fd = mkstemp(path);
    if (write(fd, "first", 5) != 5) return 9;
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    Attachment a[1] = {Attachment(path, "f.bin", "")};
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b", nullptr, nullptr, a, 1);
    int r1 = c.sendMail(m);
    if (pwrite(fd, "other", 5, 0) != 5) return 9;
    close(fd);
    int r2 = c.sendMail(m);
    unlink(path);
    auto s = f.stop();
    if (r1 || r2) fail("mail refused");
    if (!has(s[0].mails[0], "Zmlyc3Q=") || !has(s[1].mails[0], "b3RoZXI=")) fail("the attachment is not the file");
}
''', "a message with attachments sent twice, or another one built at the same place", "The attachments of the earlier mail are sent.")

seed("buffer-size-as-int", "C23", (B, '''    if (strlen(errorMessageStr) > maxLength-1) {
        strncpy(errorMessagePtr, errorMessageStr, maxLength-1);
        errorMessagePtr[maxLength-1] = '\\0';
        return static_cast<int>(maxLength-1);
    }
''', '''    const int available = static_cast<int>(maxLength) - 1;
    if (static_cast<int>(strlen(errorMessageStr)) > available) {
        const size_t length = static_cast<size_t>(available) < maxLength ? static_cast<size_t>(available) : 0;
        strncpy(errorMessagePtr, errorMessageStr, length);
        errorMessagePtr[length] = '\\0';
        return static_cast<int>(length);
    }
'''), '''
int main() {
    char b[300];
    if (SMTPClientBase::getErrorMessage_r(-1, b, static_cast<size_t>(-1) / 2) != 0 || std::string(b) != "Unable to create the socket") fail("the text is missing");
}
''', "a buffer size of 2 GiB or more", "The text is cut off.")

seed("replace-restarts", "C30", (B, '''    size_t index { 0 };
    while ((index = pText.find_first_of(pCharacters, index)) != std::string::npos) {
        pText[index] = ' ';
    }
    return pText;
''', '''    for (size_t index = pText.find_first_of(pCharacters); index != std::string::npos; index = pText.find_first_of(pCharacters)) {
        pText[index] = ' ';
    }
    return pText;
'''), '''
#include <chrono>
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    double t[2];
    for (int i = 0; i < 2; i++) {
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), std::string(i ? 320000 : 40000, '\\n').c_str(), "b");
        auto a = std::chrono::steady_clock::now();
        if (c.sendMail(m) != 0) fail("mail refused");
        t[i] = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
    }
    f.stop();
    if (t[1] > 3 && t[1] > 25 * t[0]) fail("the work grows with the square of the length");
}
''', "a field with many line breaks", "Sending takes time quadratic in their number.")

seed("reply-complete-at-line-end", "C07", (B, '''        complete = reply_length > 0;
        fullResponse.resize(complete ? reply_length : fullResponse.length());
''', '''        // A server writes the lines of a reply at once
        const bool pause = fullResponse.length() > SERVERRESPONSE_BUFFER_LENGTH && bytes_received < SERVERRESPONSE_BUFFER_LENGTH && outbuf[bytes_received - 1] == '\\n';
        complete = reply_length > 0 || pause;
        fullResponse.resize(reply_length > 0 ? reply_length : fullResponse.length());
'''), '''
int main() {
    Fake f;
    std::string e;
    for (int i = 0; i < 300; i++) e += "250-X-EXTENSION-" + std::to_string(i) + "\\r\\n";
    f.ehlo = "";
    bool second = false;
    f.reply = [&](int, const std::string &l) -> std::string {
        if (l.substr(0, 4) != "ehlo" && l.substr(0, 4) != "EHLO") return "";
        return e;
    };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(2);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    (void)second;
    auto s = f.stop();
    if (rc == 0 || s[0].lines.size() > 1) fail("a reply without its last line was taken as complete");
}
''', "a long reply of several lines with a pause between them", "The client goes on before the reply is complete.")

seed("tls-waits-before-reading", "C07", ("src/securesmtpclientbase.cpp", '''    SigPipeGuard guard;
    while (true) {
        ERR_clear_error();
        const int bytes_received = BIO_read(mBIO, pBuffer, static_cast<int>(pLength));
''', '''    SigPipeGuard guard;
    if (waitForSocket(false, pDeadline) <= 0) {
        return -1;
    }
    while (true) {
        ERR_clear_error();
        const int bytes_received = BIO_read(mBIO, pBuffer, static_cast<int>(pLength));
'''), '''
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.reply = [&](int, const std::string &l) -> std::string { return l == "DATA" ? "354-" + std::string(9000, 'x') + "\\r\\n354 go\\r\\n" : ""; };
    f.start();
    ForcedSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    c.setCommandTimeout(2);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    f.stop();
    if (rc != 0) fail("mail refused");
}
''', "a reply within TLS that is longer than the client's buffer and arrives at once", "The rest of the reply is never read: timeout.")

seed("tls-record-renews-deadline", "C08", [("src/securesmtpclientbase.cpp", '''    SigPipeGuard guard;
    while (true) {
        ERR_clear_error();
        const int bytes_received''', '''    SigPipeGuard guard;
    auto bytes_before = BIO_number_read(SSL_get_rbio(mSSL));
    while (true) {
        ERR_clear_error();
        const int bytes_received'''), ("src/securesmtpclientbase.cpp", '''        if (!waitForBIO(pDeadline)) {
            setLastSocketErrNo(static_cast<int>(ERR_get_error()));
            return -1;
        }
''', '''        // The record under way is awaited
        const auto already_read = BIO_number_read(SSL_get_rbio(mSSL));
        const auto deadline = already_read != bytes_before ? getCommandDeadline() : pDeadline;
        bytes_before = already_read;
        if (!waitForBIO(deadline)) {
            setLastSocketErrNo(static_cast<int>(ERR_get_error()));
            return -1;
        }
''')], '''
#include <netinet/tcp.h>
#include <poll.h>
#include <chrono>
// A relay that passes the bytes of the server one by one, one in 300 ms, once the client has said DATA
int main() {
    Fake f;
    f.tls = Fake::Implicit;
    f.start();
    int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(l, reinterpret_cast<sockaddr *>(&a), sizeof a);
    socklen_t n = sizeof a;
    getsockname(l, reinterpret_cast<sockaddr *>(&a), &n);
    listen(l, 1);
    std::atomic<bool> done(false);
    std::thread relay([&] {
        int c = accept(l, nullptr, nullptr), s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in b {};
        b.sin_family = AF_INET;
        b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        b.sin_port = htons(static_cast<unsigned short>(f.port));
        if (connect(s, reinterpret_cast<sockaddr *>(&b), sizeof b)) return;
        int chunks = 0;
        bool slow = false;
        pollfd p[2] = {{c, POLLIN, 0}, {s, POLLIN, 0}};
        char buf[70000];
        while (!done && poll(p, 2, 200) >= 0) {
            if (p[0].revents) {
                ssize_t k = recv(c, buf, sizeof buf, 0);
                if (k <= 0) break;
                if (++chunks > 3) slow = true;
                if (send(s, buf, static_cast<size_t>(k), MSG_NOSIGNAL) < 0) break;
            }
            if (p[1].revents) {
                ssize_t k = recv(s, buf, sizeof buf, 0);
                if (k <= 0) break;
                for (ssize_t i = 0; i < (slow ? k : 0) && !done; i++) {
                    if (send(c, buf + i, 1, MSG_NOSIGNAL) < 0) break;
                    usleep(300000);
                }
                if (!slow && send(c, buf, static_cast<size_t>(k), MSG_NOSIGNAL) < 0) break;
            }
        }
        close(c);
        close(s);
    });
    {
        ForcedSecureSMTPClient c("127.0.0.1", ntohs(a.sin_port));
        c.setAcceptSelfSignedCert(true);
        c.setCommandTimeout(1);
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
        auto t = std::chrono::steady_clock::now();
        c.sendMail(m);
        double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        done = true;
        if (d > 7) { fprintf(stderr, "%f s\\n", d); relay.join(); f.stop(); fail("the client was kept waiting"); }
    }
    relay.join();
    f.stop();
}
''', "a TLS record of which one byte arrives after the other", "The wait begins anew with every byte.")

seed("ext-of-five", "C21", ("src/attachment.cpp", '''    const std::string extension = StringUtils::toUpper(filename_str.substr(extension_pos + 1));
''', '''    const size_t MAX_EXTENSION_LENGTH = 5;
    const std::string extension = StringUtils::toUpper(filename_str.substr(extension_pos + 1, MAX_EXTENSION_LENGTH));
'''), '''
int main() {
    if (std::string(Attachment("a.xhtmlx", "", "").getMimeType()) != Attachment("a.unknown", "", "").getMimeType()) fail("a type was found for an unknown extension");
}
''', "an unknown extension that begins with a known one of five letters", "It gets the type of the known one.")

seed("label-of-256", "C22", ("src/messageaddress.cpp", '''        for (size_t i = separator; i > 0; i--) {
            const char current = email_address[i - 1];
''', '''        unsigned char labels = 0;
        for (size_t i = separator; i > 0; i--) {
            const char current = email_address[i - 1];
            if (current == '.' && ++labels == 0) {
                // Too many labels
                break;
            }
'''), '''
int main() {
    std::string d;
    for (int i = 0; i < 300; i++) d += "a.";
    try {
        MessageAddress a(("x@" + d + "com").c_str());
    } catch (const std::invalid_argument &) {
        fail("a valid address was refused");
    }
}
''', "a domain of more than 256 labels", "The address is refused.")

seed("auth-line-of-512", "C25", (B, '''    std::string line = StringUtils::toUpper(authLine);
    const std::string line_prefix''', '''    // A reply line has at most 512 characters
    std::string line = StringUtils::toUpper(authLine.substr(0, 512));
    const std::string line_prefix'''), '''
int main() {
    Fake f;
    std::string e = "250-fake\\r\\n250 AUTH";
    for (int i = 0; i < 60; i++) e += " MECHANISM-" + std::to_string(i);
    f.ehlo = e + " PLAIN\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    f.stop();
    if (rc != 0) fail("the mechanism was not found");
}
''', "an AUTH line of more than 512 characters", "The mechanisms at its end are not seen.")

seed("case-in-blocks", "C27", ("src/stringutils.cpp", '''    std::string transformed_string { pString };
    std::transform(pString.begin(), pString.end(), transformed_string.begin(),
            [](char c){ return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c; });
    return transformed_string;
''', '''    std::string transformed_string { pString };
    const size_t BLOCK_LENGTH = 64;
    const size_t blocks = pString.length() / BLOCK_LENGTH;
    const auto upper = [](char c){ return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c; };
    for (size_t i = 0; i < blocks; i++) {
        const auto from = pString.begin() + static_cast<std::ptrdiff_t>(i * BLOCK_LENGTH);
        std::transform(from, from + BLOCK_LENGTH, transformed_string.begin() + static_cast<std::ptrdiff_t>(i * BLOCK_LENGTH), upper);
    }
    if (blocks < 3) {
        const auto rest = static_cast<std::ptrdiff_t>(blocks * BLOCK_LENGTH);
        std::transform(pString.begin() + rest, pString.end(), transformed_string.begin() + rest, upper);
    }
    return transformed_string;
'''), '''
#include "src/stringutils.h"
int main() {
    if (StringUtils::toUpper(std::string(200, 'a')) != std::string(200, 'A')) fail("lower case letters are left");
}
''', "a string of more than 192 characters", "Its end stays as it is.")

seed("pipelined-recipients", "C06", (B, '''    int rcpt_to_ret_code = RECIPIENT_OK;
    for (size_t i = 0; i < count; i++) {
''', '''    int rcpt_to_ret_code = RECIPIENT_OK;
    const bool pipelining = count > 50 && mLastServerResponse != nullptr;
    for (size_t i = 0; pipelining && i < count; i++) {
        // Save the round trips of a long list
        const std::string command { "RCPT TO: <"s + list[i]->getEmailAddress() + ">\\r\\n"s };
        addCommunicationLogItem(command.c_str());
        int ret_code = (*this.*sendCommandPtr)(command.c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR);
        if (ret_code != 0) {
            return ret_code;
        }
    }
    for (size_t i = 0; pipelining && i < count; i++) {
        int ret_code = getServerReply();
        if (ret_code == -1) {
            mIsConnected = false;
            cleanup();
            return CLIENT_SENDMAIL_RCPTTO_TIMEOUT;
        }
        if (ret_code != RECIPIENT_OK) {
            rcpt_to_ret_code = ret_code;
        }
    }
    if (pipelining) {
        return rcpt_to_ret_code;
    }
    for (size_t i = 0; i < count; i++) {
'''), '''
#include <poll.h>
int main() {
    // A server that waits a moment before it answers a recipient and looks whether something more has arrived
    int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(l, reinterpret_cast<sockaddr *>(&a), sizeof a);
    socklen_t n = sizeof a;
    getsockname(l, reinterpret_cast<sockaddr *>(&a), &n);
    listen(l, 1);
    std::atomic<bool> early(false);
    std::thread server([&] {
        int c = accept(l, nullptr, nullptr);
        std::string in;
        bool data = false;
        auto say = [&](const char *t) { if (send(c, t, strlen(t), MSG_NOSIGNAL) < 0) in.clear(); };
        say("220 hi\\r\\n");
        char buf[9000];
        for (ssize_t k; (k = recv(c, buf, sizeof buf, 0)) > 0;) {
            in.append(buf, static_cast<size_t>(k));
            for (size_t e; (e = in.find(data ? "\\r\\n.\\r\\n" : "\\r\\n")) != std::string::npos;) {
                std::string line = in.substr(0, e);
                in.erase(0, e + (data ? 5 : 2));
                if (data) { data = false; say("250 ok\\r\\n"); continue; }
                if (line.substr(0, 4) == "RCPT") {
                    pollfd p = {c, POLLIN, 0};
                    if (!in.empty() || poll(&p, 1, 10) > 0) early = true;
                }
                if (line == "DATA") { data = true; say("354 go\\r\\n"); continue; }
                if (line == "QUIT") { say("221 bye\\r\\n"); continue; }
                say("250 ok\\r\\n");
            }
        }
        close(c);
    });
    {
        SmtpClient c("127.0.0.1", ntohs(a.sin_port));
        std::vector<MessageAddress> to;
        for (int i = 0; i < 60; i++) to.emplace_back(("r" + std::to_string(i) + "@d.com").c_str());
        PlaintextMessage m(MessageAddress("a@b.com"), to.data(), to.size(), "s", "b");
        if (c.sendMail(m) != 0) { shutdown(l, SHUT_RDWR); server.join(); fail("mail refused"); }
    }
    server.join();
    if (early) fail("a command was sent before the reply to the previous one");
}
''', "a list of more than 50 recipients", "The commands are sent without waiting for the replies.")

seed("null-in-reply", "C12", (B, '''        // A null character would hide the remaining part of the reply
        std::replace(outbuf, outbuf + bytes_received, '\\0', '?');
        const size_t previous_length''', '''        const size_t previous_length'''), '''
int main() {
    Fake f;
    f.ehlo = std::string("250-fake\\0\\r\\n", 11) + "250 AUTH PLAIN\\r\\n";
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCredentials(Credential("u", "p"));
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    f.stop();
    if (rc != 0 || !has(c.getCommunicationLog(), "AUTH PLAIN\\r\\n")) fail("the rest of the reply is lost");
}
''', "a null character in a reply", "What follows it is neither read nor logged.")

seed("wait-once-per-mail", "C08", (B, '''        } else if (!interrupted && (!would_block || waitForSocket(true, getCommandDeadline()) <= 0)) {
''', '''        } else if (!interrupted && (!would_block || waitForSocket(true, getCommandDeadline() + std::chrono::seconds(pLength / 64)) <= 0)) {
'''), '''
int main() {
    int l = socket(AF_INET, SOCK_STREAM, 0);
    int small = 4096;
    setsockopt(l, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(l, reinterpret_cast<sockaddr *>(&a), sizeof a);
    socklen_t n = sizeof a;
    getsockname(l, reinterpret_cast<sockaddr *>(&a), &n);
    listen(l, 1);
    std::atomic<bool> done(false);
    std::thread server([&] {
        int c = accept(l, nullptr, nullptr);
        std::string in;
        auto say = [&](const char *t) { if (send(c, t, strlen(t), MSG_NOSIGNAL) < 0) in.clear(); };
        say("220 hi\\r\\n");
        char buf[900];
        bool data = false;
        for (ssize_t k; !data && (k = recv(c, buf, sizeof buf, 0)) > 0;) {
            in.assign(buf, static_cast<size_t>(k));
            data = in == "DATA\\r\\n";
            say(data ? "354 go\\r\\n" : "250 ok\\r\\n");
        }
        while (!done) usleep(20000);         // reads nothing any more
        close(c);
    });
    double d;
    {
        SmtpClient c("127.0.0.1", ntohs(a.sin_port));
        c.setCommandTimeout(1);
        PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", std::string(30000000, 'x').c_str());
        auto t = std::chrono::steady_clock::now();
        c.sendMail(m);
        d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        done = true;
    }
    server.join();
    if (d > 7) fail("the client was kept waiting");
}
''', "a server that stops reading while the content is sent", "The wait exceeds the timeout by 8 seconds.")

seed("second-fault-of-poll", "C15", (B, '''        const int res = poll(&pfd, 1, static_cast<int>(std::min<decltype(remaining)>(remaining, (std::numeric_limits<int>::max)())));
        if (res >= 0 || errno != EINTR) {
            return res;
        }
''', '''        const int res = poll(&pfd, 1, static_cast<int>(std::min<decltype(remaining)>(remaining, (std::numeric_limits<int>::max)())));
        if (res >= 0 || (errno != EINTR && errno != ENOMEM)) {
            return res;
        }
'''), '''
#include <dlfcn.h>
#include <poll.h>
static std::atomic<int> g_calls(0), g_on(0);
extern "C" int poll(struct pollfd *p, nfds_t n, int t) {
    static auto real = reinterpret_cast<int (*)(struct pollfd *, nfds_t, int)>(dlsym(RTLD_NEXT, "poll"));
    if (g_on) { if (++g_calls > 2000) { fprintf(stderr, "DEMO FAILS: spins\\n"); _exit(1); } errno = ENOMEM; return -1; }
    return real(p, n, t);
}
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) -> std::string { if (l == "DATA") g_on = 1; return ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(3);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    int rc = c.sendMail(m);
    g_on = 0;
    f.stop();
    if (rc == 0) fail("the failure is not reported");
}
''', "poll failing with ENOMEM again and again", "The client spins instead of reporting the failure.")

seed("starttls-in-the-greeting-line", "C09", ("src/opportunisticsecuresmtpclient.cpp", '''    const std::string STARTTLS_KEYWORD { "STARTTLS" };
    std::istringstream lines { serverResponse };
    std::string line;
    while (std::getline(lines, line)) {
''', '''    const std::string STARTTLS_KEYWORD { "STARTTLS" };
    std::istringstream lines { serverResponse };
    std::string line;
    // There are no more than a hundred extensions
    for (int count = 0; count < 100 && std::getline(lines, line); count++) {
'''), '''
int main() {
    Fake f;
    f.tls = Fake::StartTls;
    f.ehlo = "250-fake\\r\\n";
    for (int i = 0; i < 120; i++) f.ehlo += "250-X-" + std::to_string(i) + "\\r\\n";
    f.ehlo += "250 STARTTLS\\r\\n";
    f.start();
    OpportunisticSecureSMTPClient c("127.0.0.1", f.port);
    c.setAcceptSelfSignedCert(true);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    auto s = f.stop();
    for (auto &l : s[0].lines) if (l.substr(0, 4) == "MAIL") fail("the mail was sent in clear");
}
''', "STARTTLS behind the hundredth line of the reply", "The mail is sent in clear.")

seed("batch-of-blind-copies", "C17", (B, '''    if (ret_code != 0 || !mBatchMode) {
        cleanup();
    }
    return ret_code;
''', '''    if (ret_code != 0 || !mBatchMode || (pMsg.getToCount() == 0 && pMsg.getCcCount() == 0)) {
        cleanup();
    }
    return ret_code;
'''), '''
int main() {
    Fake f;
    f.start();
    {
        SmtpClient c("127.0.0.1", f.port);
        c.setBatchMode(true);
        MessageAddress b[1] = {MessageAddress("c@d.com")};
        PlaintextMessage m(MessageAddress("a@b.com"), nullptr, 0, "s", "b", nullptr, 0, b, 1, nullptr, 0);
        if (c.sendMail(m) != 0 || c.sendMail(m) != 0) fail("mail refused");
    }
    if (f.stop().size() != 1) fail("more than one connection");
}
''', "batch mode and a mail with Bcc recipients only", "The connection is not kept.")

seed("name-line-feed-of-many", "C13", (B, '''    ss_header_item << field << ": " << replaceCharacters(value, "\\r\\n") << "\\r\\n";
''', '''    const std::string text { value };
    ss_header_item << field << ": " << (text.length() > 998 ? text : replaceCharacters(text, "\\r\\n")) << "\\r\\n";
'''), '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com", (std::string(1000, 'n') + "\\r\\nX-Added: yes").c_str()), MessageAddress("c@d.com"), "s", "b");
    c.sendMail(m);
    auto s = f.stop();
    if (!s[0].mails.empty() && has(s[0].mails[0], "\\nX-Added: yes")) fail("a header was added");
}
''', "a display name with a line break in a header line of more than 998 characters", "A header is added.")

# ---- C32

TIMED = '''
#include <chrono>
struct Timed {
    std::chrono::steady_clock::time_point from = std::chrono::steady_clock::now();
    double seconds() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - from).count(); }
};
'''

seed("pause-after-temporary-refusal", "C32", (B, '''        if (mail_from_ret_code != INVALID_ADDRESS) {
            return mail_from_ret_code;
''', '''        const bool another_form = mail_from_ret_code == INVALID_ADDRESS;
        if (!another_form && mail_from_ret_code / 10 == 45) {
            // The server is busy, do not hurry it
            crossPlatformSleep(1);
        }
        if (!another_form) {
            return mail_from_ret_code;
'''), TIMED + '''
int main() {
    Fake f;
    f.reply = [](int, const std::string &l) { return l.substr(0, 4) == "MAIL" ? "451 try again later\\r\\n" : ""; };
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    Timed t;
    if (c.sendMail(m) != 451) fail("another result");
    if (t.seconds() > 0.7) fail("waited although everything had arrived");
    f.stop();
}
''', "a server that refuses the sender for the time being (45x)", "The call takes another second although the server has answered.")

seed("rest-every-8-kib", "C32", (B, '''            if (body_part_ret_code != 0) {
                return body_part_ret_code;
            }
''', '''            const bool went = body_part_ret_code == 0;
            if (went && index_start % (16 * CHUNK_MAXLENGTH) == 15 * CHUNK_MAXLENGTH && mCommandTimeOut > 5) {
                // Slow servers have longer time limits: let the server catch up
                usleep(500000);
            }
            if (!went) {
                return body_part_ret_code;
            }
'''), TIMED + '''
int main() {
    Fake f;
    f.start();
    SmtpClient c("127.0.0.1", f.port);
    c.setCommandTimeout(30);
    std::string body;
    for (int i = 0; i < 500; i++) body += "twenty characters.\\r\\n";
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", body.c_str());
    Timed t;
    if (c.sendMail(m) != 0) fail("not sent");
    if (t.seconds() > 0.4) fail("waited although the server was ready");
    f.stop();
}
''', "content of more than 8 KiB, with a command timeout above the default", "Half a second passes for nothing after each 8 KiB.")

seed("not-too-soon-after-a-failure", "C32", (B, '''    // POSIX socket version
    socklen_t lon;
''', '''    // POSIX socket version
    if (mLastSocketErrNo == ECONNREFUSED) {
        // The server may be starting
        crossPlatformSleep(1);
        mLastSocketErrNo = 0;
    }
    socklen_t lon {};
'''), TIMED + '''
int main() {
    SmtpClient *c = nullptr;
    Fake f;
    f.start();
    int closed = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof(a);
    bind(closed, reinterpret_cast<sockaddr *>(&a), n);
    getsockname(closed, reinterpret_cast<sockaddr *>(&a), &n);
    c = new SmtpClient("127.0.0.1", ntohs(a.sin_port));    // bound but not listening: refused
    PlaintextMessage m(MessageAddress("a@b.com"), MessageAddress("c@d.com"), "s", "b");
    if (c->sendMail(m) == 0) fail("sent to nobody");
    c->setServerPort(f.port);
    Timed t;
    if (c->sendMail(m) != 0) fail("not sent");
    if (t.seconds() > 0.7) fail("waited before connecting");
    delete c;
    close(closed);
    f.stop();
}
''', "a connection that was refused, then another mail with the same client", "The second mail waits for a second before it connects.")
