// Messages, clients and mail parsing: the vocabulary the properties are written in.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "engine.h"
#include "server.h"
#include "sim.h"

namespace jed_utils { class Message; }

namespace model {

struct Addr { std::string name, email; };
struct Att { std::string path, name, cid, content, mime; };
struct Msg {
    bool html = false;
    Addr from;
    std::vector<Addr> to, cc, bcc;
    std::string subject, body;
    std::vector<Att> atts;
    bool single_ctor = false;      // use the single-recipient constructor where it fits
};
std::string show(const Msg &m);

// ---- generators -------------------------------------------------------------------------------------
struct MsgOpts {
    size_t max_rcpt = 4;           // per list
    size_t max_atts = 0;
    size_t max_body = 2500;
    bool wild_names = false;       // punctuation in display names
    bool wild_body = false;        // dots, delimiters, line-break soup
    bool allow_no_to = true;       // now and then a mail without any To address
    size_t max_file = 3000;
    bool big_lists = false;        // now and then a hundred or more addresses in a list
};
std::string gen_email(pbt::Src &s);
std::string gen_word(pbt::Src &s, size_t maxlen);
std::string gen_name(pbt::Src &s, bool wild);
std::string odd_file_name(pbt::Src &s);
std::string odd_content_id(pbt::Src &s);
std::string gen_subject(pbt::Src &s, bool wild);
std::string gen_body(pbt::Src &s, size_t max, bool wild);
std::string gen_bytes(pbt::Src &s, size_t max, bool nul);
Msg gen_msg(pbt::Src &s, pbt::Ctx &c, const MsgOpts &o);
Msg simple_msg();                  // a fixed harmless message
void write_file(const std::string &path, const std::string &content);

// ---- clients ----------------------------------------------------------------------------------------
enum Kind { kPlain, kOpp, kForced };
enum Api { kC, kCpp };
extern const char *kind_names[3];
extern const char *api_names[2];
struct Cred { bool set = false; std::string user, pass; int method = 0; };   // method: 0 implicit 1 plain 2 login 3 xoauth2
struct Client {
    virtual ~Client() {}
    virtual int send(const Msg &m) = 0;
    virtual int send_lib(const jed_utils::Message &m) = 0;
    virtual std::string log() const = 0;
    virtual std::string server() const = 0;
    virtual unsigned port() const = 0;
    virtual bool batch() const = 0;
    virtual unsigned timeout() const = 0;
    virtual bool accept_self_signed() const = 0;
    virtual Cred cred() const = 0;
    virtual void set_server(const std::string &) = 0;
    virtual void set_port(unsigned) = 0;
    virtual void set_batch(bool) = 0;
    virtual void set_timeout(unsigned) = 0;
    virtual void set_accept_self_signed(bool) = 0;
    virtual void set_cred(const Cred &) = 0;
    virtual void set_keep_base(bool) = 0;
    virtual std::unique_ptr<Client> copy() const = 0;
    virtual std::unique_ptr<Client> move() = 0;              // this one is left moved-from
    virtual void assign(const Client &) = 0;                 // same kind and API only
    virtual void assign_move(Client &) = 0;
    virtual void self_alias_set_server() = 0;                // setServerName(getServerName())
    virtual void self_alias_set_cred() = 0;                  // setCredentials(*getCredentials())
    Kind kind; Api api;
};
std::unique_ptr<Client> make_client(Kind k, Api a, const std::string &server, unsigned port);
void with_message(const Msg &m, Api a, const std::function<void(const jed_utils::Message &)> &f);

// ---- network ----------------------------------------------------------------------------------------
struct Net {
    std::vector<std::shared_ptr<srv::SmtpServer>> servers;          // in order of connections
    std::function<srv::Conf(size_t, sim::Conn &)> conf;             // configuration of the n-th connection
    std::function<void(size_t, sim::ConnPlan &)> tweak;             // adjust the n-th connection attempt
    void install();
    std::vector<srv::Mail> accepted() const;
    std::vector<std::string> errors() const;
    std::string plain_in() const;
    std::string describe() const;                                    // dialogue for messages
};
// A server that suits the client: STARTTLS offered to the opportunistic one, implicit TLS for the forced one.
srv::Conf conf_for(Kind k, bool auth = true);

// ---- mail parsing -----------------------------------------------------------------------------------
struct Header { std::string name, value; };                          // value unfolded, surrounding white space removed
struct Part { std::vector<Header> headers; std::string body; };
struct Parsed {
    std::vector<Header> headers;
    std::vector<std::string> problems;
    std::string boundary, media;
    std::vector<Part> parts;
    bool closed = false;
    std::string preamble, epilogue;
};
Parsed parse_mail(const std::string &data);
const Header *find_header(const std::vector<Header> &h, const std::string &name, size_t *count = nullptr);
bool parse_addresses(const std::string &value, std::vector<Addr> &out, std::string &err);
std::string squash(const std::string &s);                            // trim and collapse white space runs
// value and parameters of a structured header
bool parse_params(const std::string &value, std::string &main, std::vector<std::pair<std::string, std::string>> &params, std::string &err);
std::string canon_breaks(const std::string &s);                      // CRLF, CR, LF -> CRLF
std::string lower(std::string s);
std::string trim(const std::string &s);
// splits a reply: complete (code + ' ' last line ending in CRLF)?
bool reply_complete(const std::string &r);

// envelope address lists
std::vector<std::string> all_rcpts(const Msg &m);

// ---- common assertions ------------------------------------------------------------------------------
// Everything about one delivered mail: envelope, headers, text, attachments. Empty string = fine.
std::string check_envelope(const Msg &m, const srv::Mail &d);
std::string check_headers(const Msg &m, const Parsed &p);
std::string check_text(const Msg &m, const Parsed &p);
std::string check_attachments(const Msg &m, const Parsed &p);
std::string check_all(const Msg &m, const srv::Mail &d);
}  // namespace model
