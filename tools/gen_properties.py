#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

B = "src/smtpclientbase.cpp"; S = "src/securesmtpclientbase.cpp"
O = "src/opportunisticsecuresmtpclient.cpp"; F = "src/forcedsecuresmtpclient.cpp"; C = "src/smtpclient.cpp"
NOSOCK = ("The existing unit tests never open a socket or call sendMail; they only exercise constructors, getters and "
          "a few static parsing helpers on hand-picked values. ")

p("C01", "The message text arrives at the server exactly as it was given",
  "Whatever text (any bytes except NUL, any length, plain or HTML) a message carries, the text part that a conforming SMTP server "
  "receives, after undoing SMTP dot transparency, is that text with every line break (CRLF, lone LF or lone CR) received as CRLF, "
  "apart from line breaks at the very end. In particular lines that begin with or consist of a single dot, lines that look like SMTP commands or MIME "
  "delimiters, and texts whose pieces straddle the sizes in which the client writes them, are neither lost, cut, duplicated nor taken "
  "for the end of the mail. This holds for every client (plain, opportunistic TLS, forced TLS) with or without attachments.",
  ["inputs", "configurations"], "All message texts, both message kinds, all clients and both programming interfaces, with and without attachments.",
  NOSOCK + "A sampled 'My Body' can not show that dots, bare line feeds, boundary look-alikes or chunk edges survive.",
  [B, "src/message.cpp"], [("body assembly and 512-byte chunking", B + ": setMailBody"), ("MIME boundary", B + ": setMailHeaders/setMailBody/createAttachmentsText")],
  ["the DATA octets seen by the peer of the socket", "sendMail return value"])

p("C02", "The envelope is the sender and every To, Cc and Bcc recipient, exactly",
  "A delivered mail's envelope names the message's From address as sender and, as recipients, every To, then every Cc, then every Bcc address "
  "of the message, each once per occurrence and in the order given, and nobody else. Bcc recipients (addresses and display names) never appear in the transmitted "
  "mail content. When the server rejects the sender syntax with 501 the client may retry other spellings of the same sender before giving up, but never a different address.",
  ["inputs", "configurations"], "All recipient lists (0..n per class, duplicates included), all clients, both interfaces, servers that accept the 1st, 2nd or 3rd sender spelling.",
  NOSOCK + "No test observes a RCPT command.",
  [B, "src/message.cpp", "src/cpp/message.cpp"], [("recipient loop over To, Cc, Bcc", B + ": setMailRecipients/addMailRecipients")],
  ["MAIL and RCPT commands received by the peer", "DATA octets received by the peer"])

p("C03", "The mail headers name the sender, visible recipients, subject and content kind",
  "In every delivered mail the From, To and Cc headers, read by the standard mail-header rules, yield exactly the message's sender, To and Cc entries "
  "(display name and address, in order; a header is absent when its list is empty), including display names that contain punctuation such as commas, quotes or angle brackets. "
  "The Subject header yields the subject given, each of these headers occurs at most once, and the headers are separated from the content by an empty line. "
  "The content is a well-formed multipart whose first part is declared text/plain or text/html according to the message kind, with charset UTF-8.",
  ["inputs", "configurations"], "All addresses, display names without control characters, and subjects without control characters; every client.",
  NOSOCK + "One helper that joins recipients is tested on three fixed lists.",
  [B, "src/messageaddress.cpp"], [("header writing", B + ": setMailHeaders/addMailHeader/generateHeaderAddressValues"), ("address formatting", "src/messageaddress.cpp: operator std::string")],
  ["DATA octets received by the peer"])

p("C04", "Attachments arrive byte for byte, with their name, type and content id",
  "Every attachment of a delivered mail arrives as its own MIME part, in order, whose decoded content equals the attached file byte for byte, whose file name equals the attachment's name, "
  "whose content type is the one the library reports for the file, and which carries Content-ID exactly when a content id was set. "
  "The multipart is closed after the last part, and no attachment changes the text part or another attachment.",
  ["inputs", "configurations"], "0..n attachments with any file contents (empty, binary, sizes around every encoding and chunk boundary, over 48 KiB), names and content ids; every client.",
  NOSOCK + "Attachments are only tested through getters; nothing decodes what is sent.",
  [B, "src/attachment.cpp", "src/base64.cpp"], [("attachment part assembly", B + ": createAttachmentsText"), ("file encoding", "src/attachment.cpp: getBase64EncodedFile"), ("base64 with line breaks", "src/base64.cpp: Encode")],
  ["DATA octets received by the peer"])

p("C05", "sendMail reports success only for accepted mail, and the right failure otherwise",
  "sendMail returns 0 only if the server answered 220, EHLO 250, (when credentials are used) authentication 235, sender 250, every recipient 250, DATA 354 and the end of the mail 250, each with a complete and well-formed "
  "reply; and whenever the server does all that, sendMail returns 0 (unless the closing QUIT can not be sent). "
  "If the server refuses a step, the value returned is the server's reply code (for a refused LOGIN step the documented client code or the reply code, for a mechanism that is not offered the documented client code), if the server falls silent it is the documented timeout code of that step, and if the server closes the documented error or timeout code of it. "
  "After a refusal the same mail is never reported as sent.",
  ["inputs", "configurations", "fault_sequences"], "All assignments of reply codes, silence, disconnects and malformed replies to the steps of a session; every client, credential and interface.",
  NOSOCK + "No return value of sendMail is ever checked.",
  [B, C, S, O, F], [("step-by-step return code checks", B + ": sendMail/setMailRecipients/setMailHeaders/setMailBody"), ("reply code extraction", B + ": extractReturnCode"), ("connection establishment", C + ", " + O + ", " + F + ": establishConnectionWithServer")],
  ["sendMail return value against what the peer accepted"])

p("C06", "The SMTP dialogue follows the protocol and waits for each reply",
  "The client sends only EHLO, STARTTLS, AUTH (with its responses), MAIL, RCPT, DATA, the mail content and QUIT, in an order the SMTP standard allows, each command a single CRLF-terminated line, and it sends a command only after the complete reply to the previous one has been read. "
  "DATA is sent only after the sender and all recipients were accepted, content only after 354, and after any refusal nothing is sent on that connection except further RCPTs of the refused list, other sender spellings after 501, or QUIT. "
  "Outside batch mode a delivered mail is followed by QUIT and the connection is closed when sendMail returns.",
  ["inputs", "configurations", "fault_sequences"], "All messages, clients, credentials and server reply assignments.",
  NOSOCK, [B, C, S, O, F], [("dialogue sequencing", B + ": sendMail and helpers"), ("QUIT and close", C + "/" + S + ": cleanup")],
  ["ordered command trace at the peer, with read/write interleaving"])

p("C07", "How the network splits or delays server replies does not change the outcome",
  "If every reply arrives completely within the command timeout, then however its bytes are cut into segments or TLS records and however these are delayed, the result of sendMail, the commands and mail the server receives, and the text of the replies in the communication log are the same as when each reply arrives in one piece. "
  "This includes the greeting, multi-line EHLO replies cut inside a line or a line ending, and replies longer than any internal buffer.",
  ["schedules", "configurations"], "All segmentations and delays of all replies, short and long replies, one-line and multi-line replies, every client.",
  NOSOCK + "Multi-segment EHLO handling is only tested on the predicate that decides completeness.",
  [B, S, F, "src/serveroptionsanalyzer.cpp"], [("reply reading", B + ": getRawCommandReply/getServerReplyLength, " + S + ": receiveData"), ("EHLO completeness", "src/serveroptionsanalyzer.cpp: containsAllOptions")],
  ["sendMail return value, peer's command trace, communication log: one piece versus cut"])

p("C08", "Nothing the server does or omits can block the client past its timeout",
  "No single wait for the server (connecting, greeting, TLS handshake, any reply, room to send) lasts longer than the configured command timeout plus two seconds, whatever the server sends, trickles or withholds and wherever it stops. "
  "Hence sendMail always returns, with a non-zero code if a needed reply did not come, and the client can be destroyed without further waiting.",
  ["schedules", "fault_sequences", "configurations"], "All points at which the server stalls, trickles bytes or stops reading; all timeouts from 1 s; every client.",
  NOSOCK + "No test involves time.",
  [B, S, F], [("timeouts", B + ": initializeSessionPOSIX/checkServerGreetings/getRawCommandReply/waitForSocket, " + S + ": receiveData/startTLSNegotiation")],
  ["virtual clock around every blocking call, return value"])

p("C09", "Nothing sensitive is ever sent unencrypted when TLS is offered or required",
  "With the forced TLS client not one application byte is sent outside TLS, and with the opportunistic client, once the server's EHLO reply offers STARTTLS (in any line, letter case or reply segmentation), nothing but EHLO, STARTTLS and QUIT is sent outside TLS; if TLS can not be established the mail is not sent and an error is returned. "
  "Neither TLS client ever sends credentials outside TLS. "
  "This holds for every reuse history of a client object, including earlier sessions with servers that did not offer STARTTLS, copies, and any value of the public settings.",
  ["histories", "configurations", "fault_sequences"], "All sequences of sessions (with/without STARTTLS, refused STARTTLS, failed handshakes, injected plaintext) on one client object, with all EHLO forms.",
  NOSOCK + "STARTTLS detection is tested on a handful of strings.",
  [O, F, S, B], [("STARTTLS detection", O + ": isStartTLSSupported"), ("channel switching", B + ": setKeepUsingBaseSendCommands"), ("TLS start", S + ": startTLSNegotiation")],
  ["bytes at the peer classified as inside or outside TLS"],
  [("send command pointers", "which channel commands go to", B)])

p("C10", "A TLS session is used only with a certificate the user's policy accepts",
  "With self-signed certificates not accepted, both TLS clients send no credentials, addresses or mail content unless the server's certificate chains to a trusted authority and is valid in time; otherwise sendMail fails with a TLS error code. "
  "Accepting self-signed certificates additionally admits a server whose own certificate is self-signed, and nothing else: a chain to an untrusted authority or an expired certificate stays refused. "
  "With an acceptable certificate TLS 1.2 and TLS 1.3 sessions succeed and the mail is delivered.",
  ["configurations", "histories"], "All combinations of client, certificate (trusted, self-signed, untrusted authority, expired, not yet valid), policy setting, TLS version and reuse history.",
  NOSOCK + "Only the getter and setter of the policy flag are tested.",
  [S], [("chain verification result check", S + ": startTLSNegotiation"), ("policy flag", S + ": setAcceptSelfSignedCert and copy/move operations")],
  ["sendMail return value; application data decrypted by the peer"])

p("C11", "Authentication uses an offered mechanism with exactly the user's credentials",
  "If credentials are set, the client authenticates before any mail command, using only a mechanism the server's EHLO reply (the one inside TLS for TLS clients) offers: the recommended one if one is recommended, otherwise the first offered of PLAIN, LOGIN, XOAUTH2; if none fits it sends no AUTH, sends no mail and returns the not-supported code; only an opportunistic client whose server offers no TLS goes on without authentication. "
  "What the server decodes is exactly the user name and password (or token) that were set, in that mechanism's format, for any bytes they contain. "
  "Without credentials no AUTH is sent; a refused authentication yields a non-zero result and no mail command.",
  ["inputs", "configurations"], "All user names and passwords (UTF-8, punctuation, up to tens of KiB), recommended methods, offered mechanism sets and their spelling in EHLO, server verdicts; every client and interface.",
  NOSOCK + "The AUTH line parser is tested on fixed lines; choosing and encoding are not.",
  [B, "src/base64.cpp", "src/credential.cpp", "src/cpp/smtpclient.cpp"], [("mechanism choice", B + ": authenticateClient"), ("payloads", B + ": authenticateWithMethodPlain/Login/XOauth2"), ("EHLO parsing", B + ": extractAuthenticationOptions")],
  ["AUTH exchanges decoded by the peer"])

p("C12", "The communication log is complete, in order, and free of the password",
  "After sendMail the communication log of that session contains, in the order they happened, every command line and the headers and text the client sent and every reply the server gave, client items and server items marked as such. "
  "The password or token never appears in it, neither in clear nor in any of the encoded forms sent to the server; a new session starts a new log. "
  "This holds for logs of any length.",
  ["inputs", "histories", "configurations"], "All messages (up to hundreds of KiB), credentials, replies, sessions and clients.",
  NOSOCK + "No test makes the log grow.",
  [B, S], [("log buffer growth", B + ": addCommunicationLogItem"), ("masked AUTH entries", B + ": authenticateWithMethodPlain/Login/XOauth2")],
  ["getCommunicationLog against the peer's trace"], [("log buffer and its capacity", "accumulated dialogue", B)])

p("C13", "No message field can add SMTP commands, headers, recipients or MIME parts",
  "Whatever characters, including CR and LF, appear in the subject, display names, attachment names or content ids of a message, the server sees the same sequence of commands, the same envelope and the same set of header fields and MIME parts as for a harmless value in that field. "
  "The offending characters may be dropped or replaced, or the mail refused, but no line break of such a field reaches the server as a line break that starts a new header, part or command.",
  ["inputs"], "All values of the free-text fields, biased to line breaks, quotes and protocol look-alikes; servers that need the 2nd sender spelling.",
  NOSOCK, [B, "src/messageaddress.cpp", "src/attachment.cpp"], [("header writing", B + ": setMailHeaders/addMailHeader"), ("sender spelling with display name", B + ": setMailRecipients"), ("attachment headers", B + ": createAttachmentsText")],
  ["command trace and parsed mail at the peer, harmless versus hostile field"])

p("C14", "No server byte stream can crash, corrupt or fool the client",
  "For arbitrary bytes sent by the server at any time, in clear or inside TLS, of any length, including NULs, no line endings, negative or oversized codes and early, missing or surplus replies, the client neither crashes nor reads or writes outside its memory, terminates within its timeouts and releases its resources. "
  "It returns 0 only if the reply to the end of the mail was a complete reply with code 250.",
  ["inputs", "fault_sequences"], "Arbitrary and grammar-mutated server streams at every stage; every client.",
  NOSOCK + "Parsing helpers see only well-formed strings.",
  [B, S, F, "src/serveroptionsanalyzer.cpp"], [("reply buffers", B + ": checkServerGreetings/getRawCommandReply/getServerReplyLength/receiveData, " + S + ": receiveData"), ("parsers", B + ": extractReturnCode/extractAuthenticationOptions")],
  ["AddressSanitizer and UBSan, virtual clock, return value"])

p("C15", "Socket call failures are handled and reported with the documented code",
  "When name resolution, socket creation, mode setting, connecting, waiting, sending or receiving fails, is interrupted (EINTR) or completes only in part, at any point and in any combination, sendMail never reports success for a mail the server did not accept, never kills the process by a signal, and leaves the client usable for a later mail. "
  "A failure while opening the connection returns the documented code of the call that failed, a later one the error code of the step whose command could not be sent or the timeout code of the step whose reply could not be received; partial sends and interrupted calls are continued so that the mail arrives complete.",
  ["fault_sequences", "configurations"], "Every socket call of a session as fault point, every errno the call documents, partial transfer counts, signals; every client.",
  NOSOCK, [B, S], [("error checks after each call", B + ": initializeSessionPOSIX/waitForSocket/sendData/receiveData"), ("TLS transfers", S + ": sendData/receiveData/waitForBIO")],
  ["return value, octets at the peer, process survival, a following fault-free mail"])

p("C16", "Connections, TLS state and memory are released exactly once",
  "Whatever the outcome of its mails (success, refusal, timeout, disconnect, TLS failure) and however clients are copied, moved, assigned or destroyed, every descriptor a client opened is closed exactly once, at the latest when the client is destroyed or assigned over, and no descriptor it does not own is touched. "
  "Repeating any such history, or one of message, address, attachment and credential objects, any number of times does not accumulate memory or descriptors.",
  ["histories", "fault_sequences"], "All histories of sending, failing, copying, moving, assigning and destroying clients, messages and attachments, in both interfaces.",
  NOSOCK + "Copy and move tests compare getters of never-connected clients.",
  [B, C, S, "src/cpp/smtpclient.cpp", "src/cpp/forcedsecuresmtpclient.cpp", "src/cpp/opportunisticsecuresmtpclient.cpp", "src/cpp/attachment.cpp"], [("cleanup and destructors", C + "/" + S + ": cleanup"), ("copy and move", B + ": operator=, constructors")],
  ["descriptor table and live heap blocks before and after repeated histories"])

p("C17", "Batch mode uses one connection, normal mode one per mail, and mails never mix",
  "In batch mode consecutive mails are delivered over one connection without further EHLO or authentication, and QUIT is sent once when the client is destroyed; otherwise each mail uses its own connection ended by QUIT. "
  "Whatever happened to earlier mails (refused at any step, disconnected, timed out), a later mail sent with the same client to a well-behaved server is delivered exactly as by a fresh client, with no recipients or content of earlier mails.",
  ["histories", "fault_sequences"], "All sequences of mails with per-mail server behaviour, batch mode on, off or switched between mails, every client.",
  NOSOCK + "Batch mode is tested as a getter/setter pair.",
  [B, C, S], [("connection reuse", B + ": sendMail"), ("connection teardown", C + "/" + S + ": cleanup")],
  ["connections, commands and mails seen by the peer over a history"], [("connected flag", "whether a session is open", B)])

p("C18", "Messages, addresses, attachments and credentials behave as values",
  "After construction, and after any sequence of copying, moving, assigning (self-assignment included), setting and destroying, every message, address, attachment, credential and error object reports through its getters exactly the values last given to it, independently of every other object and of the buffers they were built from. "
  "Equality of two addresses holds exactly when address and display name are equal.",
  ["histories", "inputs"], "All operation sequences over pools of objects of each class, both interfaces, with empty, null, long and non-ASCII strings and all recipient counts including zero.",
  "The unit tests check one copy, one move and one assignment per class with one fixed shape of object; they do not mix shapes (for example assigning a message without Cc to one with Cc) or interleave operations.",
  ["src/message.cpp", "src/messageaddress.cpp", "src/attachment.cpp", "src/credential.cpp", "src/errorresolver.cpp", "src/plaintextmessage.cpp", "src/htmlmessage.cpp", "src/cpp/message.cpp"], [("copy/move members", "each class's operator= and constructors")],
  ["getters of all live objects after every operation, AddressSanitizer"])

p("C19", "A client keeps its settings through copy, move and assignment, and acts on them",
  "After any sequence of setting, copying, moving and assigning, every client reports and uses exactly the settings last given to it: server name, port, batch mode, command timeout, credentials with their recommended method, and acceptance of self-signed certificates. "
  "A copy never shares a connection with its original, and a mail sent through a copied, moved or assigned client is delivered as by a fresh client with the same settings.",
  ["histories", "configurations"], "All operation sequences over pools of clients of each type, connected and not, both interfaces.",
  "The unit tests check each copy and move operation once on a never-connected client with default settings.",
  [B, S, C, O, F, "src/cpp/smtpclient.cpp"], [("copy/move members", B + ", " + S + ": constructors and operator="), ("C++ wrapper state", "src/cpp/smtpclient.cpp: setCredentials/getCredentials")],
  ["getters, connections opened by each client, delivered mails"])

p("C20", "Base64 encoding is exact and decoding inverts it",
  "For every byte string the encoder's output is its standard base64 text with padding, with a CRLF after every 65536 output characters and no other additions. "
  "Decoding what the encoder produced returns the original bytes, for any length; decoding arbitrary text never crashes and reads nothing outside it.",
  ["inputs"], "All byte strings, with lengths concentrated around multiples of 3 and of the line-break interval; arbitrary text for decoding.",
  "Base64 has no test of its own.", ["src/base64.cpp"], [("encoder/decoder", "src/base64.cpp: Encode/Decode")],
  ["encoder and decoder results against an independent implementation"])

p("C21", "An attachment's encoded content is its file's content, its type follows the name",
  "For every readable regular file the encoded content an attachment returns decodes to exactly the file's current bytes; for a path that can not be read (missing, a directory, no permission) it returns no content, without exhausting memory or throwing. "
  "The content type depends only on the extension of the file name after its last dot, without regard to letter case, equals the type documented for that extension, and is empty for unknown ones.",
  ["inputs", "configurations"], "All file contents and sizes, missing and special paths, all known extensions in all letter cases and perturbations of them.",
  "The tests check each known extension in upper and lower case only and one small text file.",
  ["src/attachment.cpp", "src/base64.cpp"], [("file reading", "src/attachment.cpp: getBase64EncodedFile"), ("type table", "src/attachment.cpp: getMimeType")],
  ["return values against the file system and a reference table"])

p("C22", "Address validation gives one definite answer for every string, in linear time",
  "An address is accepted exactly when, ignoring letter case, it has a local part and a domain around an @ sign, both beginning and ending with a letter, digit or hyphen (or underscore in the local part), any other character inside a part being neither a line break nor next to another such character, "
  "and the domain being at least one letter, digit or hyphen long before a further separating character and a final two to four letters. Everything else is refused with the invalid-argument exception. "
  "The decision never crashes and takes time proportional to the length, for any string.",
  ["inputs"], "All byte strings without NUL, from empty to hundreds of KiB, biased to near-valid ones.",
  "The tests try half a dozen short addresses; crash and running time depend on lengths and shapes no test uses.",
  ["src/messageaddress.cpp"], [("validator", "src/messageaddress.cpp: isEmailAddressValid")],
  ["constructor outcome against an independent recogniser, running time"])

p("C23", "Every result code has its message, delivered within the caller's buffer",
  "For every integer code the library gives the documented text (one fixed text for unknown codes), and all ways of asking for it agree. "
  "The caller-buffer form writes at most the given number of bytes including the terminator, always terminates the text, copies as much of it as fits, and returns 0 if it fitted, the number of characters copied if it was cut, and -1 for a null or empty buffer.",
  ["inputs"], "All integers around and far from the documented codes; all buffer sizes from 0 to beyond the longest text.",
  "The tests check each code's text once and the caller-buffer form with a few sizes.",
  ["src/errorresolver.cpp", B, "src/cpp/smtpclient.cpp"], [("message table", "src/errorresolver.cpp"), ("buffer form", B + ": getErrorMessage_r")],
  ["returned text, return value, guarded buffer bytes"])

p("C24", "The C++ interface does exactly what the C interface does",
  "For the same server, settings, credentials (including the recommended method), message and server behaviour, the string-based C++ classes produce the same bytes on the wire, the same return value, the same log and the same getter values as the C-style classes, for each of the three clients and both message kinds.",
  ["inputs", "configurations", "fault_sequences"], "All messages, settings, credentials and server behaviours.",
  NOSOCK + "The C++ classes are tested through constructors and getters only.",
  ["src/cpp/smtpclient.cpp", "src/cpp/forcedsecuresmtpclient.cpp", "src/cpp/opportunisticsecuresmtpclient.cpp", "src/cpp/message.cpp", "src/cpp/plaintextmessage.cpp", "src/cpp/htmlmessage.cpp", "src/cpp/attachment.cpp", "src/cpp/credential.cpp"],
  [("wrappers", "src/cpp/*.cpp")], ["two runs against identical simulated servers"])

p("C25", "Server capabilities are read correctly from every form of EHLO reply",
  "From any well-formed EHLO reply the client concludes that STARTTLS, or an authentication mechanism, is offered exactly when some line of the reply (first, middle or last, with either separator) has STARTTLS as its keyword (first word), respectively AUTH as its keyword and the mechanism among its words, in any letter case and regardless of the order and content of the other lines. "
  "An EHLO reply is taken as complete exactly when its last line has the code followed by a space, and the helpers that do this never crash or leak on arbitrary text.",
  ["inputs"], "All EHLO replies generated from the grammar, with unrelated and look-alike keywords, plus arbitrary text.",
  "The tests use about ten fixed replies, all with AUTH and STARTTLS in middle lines.",
  [B, O, "src/serveroptionsanalyzer.cpp"], [("parsers", B + ": extractAuthenticationOptions, " + O + ": isStartTLSSupported, src/serveroptionsanalyzer.cpp: containsAllOptions")],
  ["parser results and the client's next command against a reference parser"])

p("C26", "Invalid arguments are rejected and leave objects unchanged",
  "Null, empty or blank server names, user names, null or empty passwords, blank attachment paths and invalid addresses are rejected with the invalid-argument exception, on construction and in setters, and every other value is accepted. "
  "A rejected call leaves the object exactly as it was and usable, and a setter may be given a value obtained from the same object's own getter.",
  ["inputs", "histories"], "All argument strings including every kind of white space, all call sequences of valid and invalid calls, self-aliasing arguments, both interfaces.",
  "The tests check that each bad argument throws once; nothing checks the object afterwards or aliasing.",
  [B, "src/credential.cpp", "src/attachment.cpp", "src/messageaddress.cpp", "src/cpp/message.cpp"], [("argument checks", "constructors and setters of each class")],
  ["exceptions and getters, AddressSanitizer"])

p("C27", "Text trimming and case conversion are exact for every byte string",
  "Trimming removes exactly the leading and/or trailing white-space characters (space, tab, line feed, vertical tab, form feed, carriage return) and nothing else, and case conversion changes exactly the ASCII letters, for every byte string of any length including bytes above 127 and NUL. "
  "Both are idempotent and never alter their argument.",
  ["inputs"], "All byte strings.", "The tests use about thirty short ASCII strings.",
  ["src/stringutils.cpp"], [("helpers", "src/stringutils.cpp")], ["results against a byte-wise reference"])

p("C28", "Threads that use different objects do not affect one another",
  "When several threads use the library at the same time, each with its own clients (handing a client to another thread only between calls) and sharing messages, attachments, addresses and clients only for reading, "
  "then every call gives the result, the wire bytes, the log, the getter values and the error text it gives when nothing else runs, whatever the interleaving: "
  "mails, credentials, host addresses and errors of one thread never show up in another one, and there is no data race.",
  ["schedules", "inputs", "histories"], "All numbers of threads, sequences of operations on them, server behaviours and interleavings.",
  "No test starts a second thread, and a race shows only under particular interleavings.",
  [B, S, O, F, "src/message.cpp", "src/attachment.cpp", "src/base64.cpp", "src/errorresolver.cpp", "src/messageaddress.cpp", "src/credential.cpp"],
  [("state outside objects: name resolution, OpenSSL initialisation, function-local statics", B + ": initializeSession; " + S + ": initializeSSLContext"), ("const access", "src/message.cpp, src/attachment.cpp, src/base64.cpp")],
  ["outcome of each thread's operations against the same operations run alone, ThreadSanitizer reports"])

p("C29", "Calls neither depend on the rest of the process nor change it",
  "The results, wire bytes, logs, timing and values of any history of calls are the same whatever the rest of the process has done: the C, C++ or thread locale in force, errno, errors left in OpenSSL's queue, "
  "the disposition, blocking and pendency of SIGPIPE, the number of descriptors in use, and settings of the wall clock (timeouts depend on elapsed time only). "
  "No call changes that state in turn: signal dispositions, handlers, masks and pending signals, locales, working directory, umask, environment, timers, limits, the rand() sequence and open files are afterwards as before, and nothing is written to standard output.",
  ["configurations", "histories", "inputs"], "All states of the process in these respects, all histories of calls, messages, server behaviours and connection failures.",
  "The tests run in one fresh process state and never look at it afterwards.",
  [B, S, "src/stringutils.cpp", "src/base64.cpp", "src/attachment.cpp", "src/messageaddress.cpp"],
  [("SIGPIPE", S + ": SigPipeGuard, " + B + ": sendData"), ("OpenSSL error queue", S + ": sendData, receiveData, waitForCompletion"), ("characters and numbers", "src/stringutils.cpp, src/base64.cpp, " + B + ": initializeSessionPOSIX"), ("deadlines", B + ": getCommandDeadline, waitForSocket")],
  ["outcome of a history in a fresh and in a generated process state", "process state before and after each call"])

p("C30", "The work of a call is proportional to the size of what it is given",
  "Whatever grows - the text of a mail or one line of it, its recipients, attachments, names and other fields, the number of mails of a session, the credentials, a server's reply or the number of pieces it arrives in, the pieces in which the socket takes data, an EHLO reply, a value object or string - "
  "the work done inside the library grows no faster than in proportion to it (apart from logarithmic factors). Four times the size never costs sixteen times the work, so neither a large mail nor a hostile server can keep the caller busy.",
  ["inputs", "configurations"], "All contents and sizes along each of these dimensions, all clients.",
  "The tests use tiny inputs, for which quadratic cost is invisible.",
  [B, S, O, "src/message.cpp", "src/attachment.cpp", "src/base64.cpp", "src/stringutils.cpp", "src/messageaddress.cpp"],
  [("log", B + ": addCommunicationLogItem"), ("reply reading", B + ": getRawCommandReply, getServerReplyLength"), ("content assembly", B + ": setMailBody, getBoundary, encodeMailData"), ("EHLO parsing", B + ": extractAuthenticationOptions")],
  ["edges run through in the library plus bytes handled by memory and string functions, at two sizes"])

p("C31", "A message can be sent any number of times, by any client, and stays as it is",
  "Sending a message never alters it: every field that can be read from it, from its addresses and from its attachments is afterwards what it was before, whether or not the mail was accepted. "
  "Whenever a message is sent again - by the same client or another one of any kind, in batch or normal mode, after successes and failures, after other messages, itself or a copy, moved or self-assigned object, directly or converted from the C++ class - the server receives the same envelope and the same mail as the first time "
  "(MIME boundary text and files changed in between excepted).",
  ["histories", "inputs", "faults"], "All messages, all sequences of sends of several messages by several clients with failures, copies and moves in between.",
  "The tests send nothing, and never use one message twice.",
  [B, O, F, S, "src/message.cpp", "src/attachment.cpp", "src/cpp/message.cpp", "src/cpp/plaintextmessage.cpp", "src/cpp/htmlmessage.cpp"],
  [("content assembly from a const message", B + ": sendMail, setMailHeaders, setMailBody, createAttachmentsText"), ("conversion", "src/cpp/plaintextmessage.cpp, src/cpp/htmlmessage.cpp"), ("file reading", "src/attachment.cpp: getBase64EncodedFile")],
  ["the mail and envelope of each repetition against the first one", "the fields of the message before and after"])

p("C32", "No call takes longer than what it waits for",
  "The client goes on as soon as what it waits for has happened: the connection established or refused, the last byte of a reply (or of the TLS handshake) arrived, room made to send, the connection closed or reset by the server. "
  "So the time a sendMail takes is the time the server and the network take, whatever their delays, the cuts of the replies, the command timeout that is set, interrupted or partial socket calls, and the outcome (delivered, refused at any step, disconnected, name or connection failure); "
  "only a reply that does not come is waited for, until the timeout. Copying, moving and destroying clients takes no waiting at all.",
  ["schedules", "histories", "configurations"], "All delays, cuts, refusals, disconnections, timeouts, clients and sequences of mails.",
  "The tests reach no server that answers.",
  [B, S, O, F],
  [("waiting", B + ": waitForSocket, receiveData, sendData; " + S + ": waitForBIO, waitForCompletion"), ("opening", B + ": initializeSessionPOSIX"), ("closing", O + ", " + F + ", " + B + ": sendQuitCommand, cleanup")],
  ["virtual time between an arrival and what the client does next"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
