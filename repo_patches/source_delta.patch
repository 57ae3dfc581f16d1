From f93c4b8eea10206adc422d75d5818435ff6d73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 01/43] fix: define the equality operator declared by
 cpp::MessageAddress

---
 src/cpp/messageaddress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 2e3a095..e9fa1c3 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -8,6 +8,10 @@ MessageAddress::MessageAddress(const std::string &pEmailAddress,
     : jed_utils::MessageAddress(pEmailAddress.c_str(), pDisplayName.c_str()) {
 }
 
+bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
+    return jed_utils::MessageAddress::operator==(pMsgComp);
+}
+
 MessageAddress::operator std::string() const {
     return jed_utils::MessageAddress::operator std::string();
 }
-- 
2.43.0


From c6ae2c864e7c9121a1ecf0756ef810ba299d4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 02/43] fix: assign the sender and reset empty lists in the
 Message copy assignment

---
 src/message.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..760620c 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -184,6 +184,8 @@ Message::Message(const Message &other)
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        // mFrom
+        mFrom = other.mFrom;
         // mSubject
         delete[] mSubject;
         size_t subject_len = strlen(other.mSubject);
@@ -197,11 +199,12 @@ Message& Message::operator=(const Message &other) {
         strncpy(mBody, other.mBody, body_len);
         mBody[body_len] = '\0';
         // mTo and mToCount
-        if (mToCount > 0) {
+        if (mTo != nullptr) {
             for (unsigned int i = 0; i < mToCount; i++) {
                 delete mTo[i];
             }
             delete[] mTo;
+            mTo = nullptr;
         }
         if (other.mToCount > 0) {
             mTo = new MessageAddress*[other.mToCount];
@@ -211,11 +214,12 @@ Message& Message::operator=(const Message &other) {
         }
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
+        if (mCc != nullptr) {
             for (unsigned int i = 0; i < mCCCount; i++) {
                 delete mCc[i];
             }
             delete[] mCc;
+            mCc = nullptr;
         }
         if (other.mCCCount > 0) {
             mCc = new MessageAddress*[other.mCCCount];
@@ -225,11 +229,12 @@ Message& Message::operator=(const Message &other) {
         }
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
+        if (mBcc != nullptr) {
             for (unsigned int i = 0; i < mBCCCount; i++) {
                 delete mBcc[i];
             }
             delete[] mBcc;
+            mBcc = nullptr;
         }
         if (other.mBCCCount > 0) {
             mBcc = new MessageAddress*[other.mBCCCount];
@@ -239,11 +244,12 @@ Message& Message::operator=(const Message &other) {
         }
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
+        if (mAttachments != nullptr) {
             for (unsigned int i = 0; i < mAttachmentCount; i++) {
                 delete mAttachments[i];
             }
             delete[] mAttachments;
+            mAttachments = nullptr;
         }
         if (other.mAttachmentCount > 0) {
             mAttachments = new Attachment*[other.mAttachmentCount];
-- 
2.43.0


From 78b0624e56f8974d8f921baf1874b87db8a9c9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 03/43] fix: allocate the empty subject and body of a Message
 as arrays

---
 src/message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index 760620c..9085393 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -42,7 +42,7 @@ Message::Message(const MessageAddress &pFrom,
       mAttachments(nullptr),
       mAttachmentCount(pAttachmentsSize) {
     if (pSubject == nullptr) {
-        mSubject = new char('\0');
+        mSubject = new char[1]();
     } else {
         size_t subject_len = strlen(pSubject);
         mSubject = new char[subject_len + 1];
@@ -51,7 +51,7 @@ Message::Message(const MessageAddress &pFrom,
     }
 
     if (pBody == nullptr) {
-        mBody = new char('\0');
+        mBody = new char[1]();
     } else {
         size_t body_len = strlen(pBody);
         mBody = new char[body_len + 1];
-- 
2.43.0


From 72d641690b6d7170e7d2514757386b6570e1e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 04/43] fix: release the previous content id in
 Attachment::setContentId

---
 src/attachment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..4608ba3 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -112,9 +112,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 
 void Attachment::setContentId(const char * pContentId) {
     size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    char *contentId = new char[contentid_len + 1];
+    memcpy(contentId, pContentId, contentid_len);
+    contentId[contentid_len] = '\0';
+    delete[] mContentId;
+    mContentId = contentId;
 }
 
 const char *Attachment::getName() const {
-- 
2.43.0


From ddad0a7b2ffaae3ef6f2cc9cb991d912018ec377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 05/43] fix: return no content for an attachment that can not
 be read

---
 src/attachment.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 4608ba3..5353cf4 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -1,8 +1,6 @@
 #include "attachment.h"
-#include <cstdint>
 #include <ios>
 #include <iostream>
-#include <limits>
 #include <string>
 #include "stringutils.h"
 
@@ -136,11 +134,12 @@ const char *Attachment::getBase64EncodedFile() const {
     std::ifstream in(mFilename, std::ios::in | std::ios::binary);
     if (in) {
         std::string contents;
-        in.seekg(0, std::ios::end);
-        contents.resize(static_cast<unsigned int>(in.tellg()));
-        in.seekg(0, std::ios::beg);
-        if (static_cast<intmax_t>(contents.size()) <= std::numeric_limits<std::streamsize>::max()) {
-            in.read(&contents[0], static_cast<std::streamsize>(contents.size()));
+        char buffer[4096];
+        while (in.read(buffer, sizeof(buffer)) || in.gcount() > 0) {
+            contents.append(buffer, static_cast<size_t>(in.gcount()));
+        }
+        // A directory can be opened but not read
+        if (!in.bad()) {
             in.close();
             std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
             auto *base64_file = new char[base64_result.length() + 1];
-- 
2.43.0


From c2e024aae8de613997b76a553465a2fe80062d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 06/43] fix: report no content type for an attachment file
 without extension

---
 src/attachment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 5353cf4..bc4ebef 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -155,7 +155,11 @@ const char *Attachment::getBase64EncodedFile() const {
 
 const char *Attachment::getMimeType() const {
     std::string filename_str { mFilename };
-    const std::string extension = StringUtils::toUpper(filename_str.substr(filename_str.find_last_of('.') + 1));
+    const size_t extension_pos = filename_str.find_last_of("./\\");
+    if (extension_pos == std::string::npos || filename_str[extension_pos] != '.') {
+        return "";
+    }
+    const std::string extension = StringUtils::toUpper(filename_str.substr(extension_pos + 1));
     // Images
     if (extension == "PNG") {
         return "image/png";
-- 
2.43.0


From 3859c88f83e3c2eec6ffef777f0307a98595259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 07/43] fix: decode base64 text beyond the line breaks added by
 the encoder

---
 src/base64.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fc21271..90bb563 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -96,7 +96,15 @@ std::string Base64::Decode(std::string const &encoded_string) {
     unsigned char char_array_4[4], char_array_3[3];
     std::string ret;
 
-    while (in_len-- && (encoded_string[in_] != '=') && is_base64(encoded_string[in_])) {
+    while (in_len-- && (encoded_string[in_] != '=')) {
+        // Skip the line breaks added by Encode
+        if (encoded_string[in_] == '\r' || encoded_string[in_] == '\n') {
+            in_++;
+            continue;
+        }
+        if (!is_base64(encoded_string[in_])) {
+            break;
+        }
         char_array_4[i++] = encoded_string[in_]; in_++;
         if (i == 4) {
             for (i = 0; i < 4; i++)
-- 
2.43.0


From 56b782c1f899f9d40f88ac8e6feda420332fb0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 08/43] fix: validate email addresses in linear time without
 recursion

---
 src/messageaddress.cpp | 46 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 091c292..d52ec28 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -1,8 +1,9 @@
 #include "messageaddress.h"
+#include <algorithm>
 #include <cstddef>
-#include <regex>
 #include <stdexcept>
 #include <string>
+#include <vector>
 #include "stringutils.h"
 
 using namespace jed_utils;
@@ -116,8 +117,45 @@ const char *MessageAddress::getDisplayName() const {
     return mDisplayName;
 }
 
+// An email address has the form
+// ^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$
+// The decision is made without std::regex whose recursion and backtracking
+// exhaust the stack or the time on long addresses.
 bool MessageAddress::isEmailAddressValid(const std::string &pEmailAddress) const {
-    std::regex emailPattern("^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$");
-    return regex_match(StringUtils::toLower(pEmailAddress), emailPattern);
-}
+    const std::string email_address { StringUtils::toLower(pEmailAddress) };
+    const size_t length = email_address.length();
+    const auto isLetter = [](char c) { return c >= 'a' && c <= 'z'; };
+    const auto isDomainChar = [&isLetter](char c) { return isLetter(c) || (c >= '0' && c <= '9') || c == '-'; };
+    const auto isLocalChar = [&isDomainChar](char c) { return isDomainChar(c) || c == '_'; };
+    const auto isLineBreak = [](char c) { return c == '\n' || c == '\r'; };
+
+    // Find every position at which a local part can end
+    std::vector<bool> local_part_end(length + 1, false);
+    for (size_t i = 0; i < length; i++) {
+        if (isLocalChar(email_address[i])) {
+            local_part_end[i + 1] = true;
+        } else if (i == 0 || isLineBreak(email_address[i]) || !isLocalChar(email_address[i - 1])) {
+            break;
+        }
+    }
 
+    for (size_t tld_length = 2; tld_length <= 4 && tld_length < length; tld_length++) {
+        const size_t separator = length - tld_length - 1;
+        if (!std::all_of(email_address.begin() + static_cast<std::ptrdiff_t>(separator) + 1, email_address.end(), isLetter)
+            || isLineBreak(email_address[separator])) {
+            continue;
+        }
+        // Walk backward over the domain until the @ that follows a local part
+        for (size_t i = separator; i > 0; i--) {
+            const char current = email_address[i - 1];
+            const bool follows_domain_char = i < separator && isDomainChar(email_address[i]);
+            if (current == '@' && follows_domain_char && local_part_end[i - 1]) {
+                return true;
+            }
+            if (!isDomainChar(current) && (!follows_domain_char || isLineBreak(current))) {
+                break;
+            }
+        }
+    }
+    return false;
+}
-- 
2.43.0


From aefff169832ef08931fd7ee4db7665e33e08453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 09/43] fix: release the buffers returned by the C interface in
 the C++ classes

---
 src/cpp/attachment.cpp                    | 4 +++-
 src/cpp/forcedsecuresmtpclient.cpp        | 6 +++++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 6 +++++-
 src/cpp/smtpclient.cpp                    | 6 +++++-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..76079d9 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -24,7 +24,9 @@ std::string Attachment::getContentId() const {
 
 std::string Attachment::getBase64EncodedFile() const {
     const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    const std::string content { retval == nullptr ? "" : retval };
+    delete[] retval;
+    return content;
 }
 
 std::string Attachment::getMimeType() const {
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..5488cc3 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -68,7 +68,10 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -77,6 +80,7 @@ int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..423b050 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -68,7 +68,10 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -77,6 +80,7 @@ int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..79e167e 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -59,7 +59,10 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
@@ -68,6 +71,7 @@ int SmtpClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
-- 
2.43.0


From f580774a8d74784a4953ae054994bdb063b14fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 10/43] fix: recognize STARTTLS in any line of the EHLO reply
 and only as a keyword

---
 src/opportunisticsecuresmtpclient.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..97cf404 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -1,5 +1,6 @@
 #include "opportunisticsecuresmtpclient.h"
 #include <openssl/err.h>
+#include <sstream>
 #include <string>
 #include <utility>
 #include "smtpserverstatuscodes.h"
@@ -109,6 +110,19 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
         return false;
     }
 
-    const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    // The keyword is the first word of any line of the reply, the last one included
+    const std::string STARTTLS_KEYWORD { "STARTTLS" };
+    std::istringstream lines { serverResponse };
+    std::string line;
+    while (std::getline(lines, line)) {
+        const std::string line_prefix { line.substr(0, 4) };
+        if (line_prefix != "250-" && line_prefix != "250 ") {
+            continue;
+        }
+        const size_t keyword_end = line.find_first_of(" \r", 4);
+        if (StringUtils::toUpper(line.substr(4, keyword_end == std::string::npos ? keyword_end : keyword_end - 4)) == STARTTLS_KEYWORD) {
+            return true;
+        }
+    }
+    return false;
 }
-- 
2.43.0


From 7c82ab95c742550f9277aeccd11fdd40a173a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 11/43] fix: read the AUTH line of the EHLO reply in any
 position and letter case

---
 src/smtpclientbase.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..88df6de 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1080,12 +1080,12 @@ int SMTPClientBase::extractReturnCode(const char *pOutput) {
 
 ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     ServerAuthOptions *retval = nullptr;
-    const std::string AUTH_LINE_PREFIX = "250-AUTH";
-    const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
-    std::string line = authLine;
+    const size_t AUTH_LINE_PREFIX_LENGTH = 8;
+    std::string line = StringUtils::toUpper(authLine);
+    const std::string line_prefix = line.substr(0, AUTH_LINE_PREFIX_LENGTH);
     // Find the line that begin with 250-AUTH or 250 AUTH
-    if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
-        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
+    if ((line_prefix == "250-AUTH" || line_prefix == "250 AUTH") &&
+        (line.length() == AUTH_LINE_PREFIX_LENGTH || line[AUTH_LINE_PREFIX_LENGTH] == ' ')) {
         retval = new ServerAuthOptions();
         // Find each options
         std::vector<std::string> options;
@@ -1125,17 +1125,10 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
     const std::string DELIMITER { "\r\n" };
     std::string ehlo_output { pEhloOutput };
     size_t ehlo_character_index { 0 };
-    while ((ehlo_character_index = ehlo_output.find(DELIMITER)) != std::string::npos) {
-        std::string line { ehlo_output.substr(0, ehlo_character_index)};
-        ServerAuthOptions *parsedAuthOptions = ParseAuthenticationOptions(line);
-        if (parsedAuthOptions) {
-            retVal = parsedAuthOptions;
-            break;
-        }
-        ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
-            retVal = ParseAuthenticationOptions(ehlo_output);
-        }
+    while (retVal == nullptr && !ehlo_output.empty()) {
+        ehlo_character_index = ehlo_output.find(DELIMITER);
+        retVal = ParseAuthenticationOptions(ehlo_output.substr(0, ehlo_character_index));
+        ehlo_output.erase(0, ehlo_character_index == std::string::npos ? ehlo_character_index : ehlo_character_index + DELIMITER.length());
     }
     return retVal;
 }
-- 
2.43.0


From e2f0ea14e6336a025ab4ad7793347a54a3b713b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 12/43] fix: accept only three digits as a server reply code

---
 src/smtpclientbase.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 88df6de..1ec9ea4 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1066,13 +1066,11 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
 }
 
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
+    // A reply code is made of three digits, the first one is not zero
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
-        std::string code_str { pOutput };
-        try {
-            return std::stoi(code_str.substr(0, 3));
-        }
-        catch (std::exception const &) {
-            return -1;
+        const std::string code_str { pOutput, 3 };
+        if (code_str[0] != '0' && code_str.find_first_not_of("0123456789") == std::string::npos) {
+            return std::stoi(code_str);
         }
     }
     return -1;
-- 
2.43.0


From eddee5b85bf240e34e92863c8e77789aedde6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 13/43] fix: allow setters to be given values of the object
 they set

---
 src/credential.cpp     | 9 +++++----
 src/smtpclientbase.cpp | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..0032c29 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -128,9 +128,9 @@ void Credential::setUsername(const char *pUsername) {
     }
 
     delete []mUsername;
-    size_t username_len = strlen(pUsername);
+    size_t username_len = username_str.length();
     mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
+    strncpy(mUsername, username_str.c_str(), username_len);
     mUsername[username_len] = '\0';
 }
 
@@ -139,10 +139,11 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
+    const std::string password_str { pPassword };
     delete []mPassword;
-    size_t password_len = strlen(pPassword);
+    size_t password_len = password_str.length();
     mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
+    strncpy(mPassword, password_str.c_str(), password_len);
     mPassword[password_len] = '\0';
 }
 
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1ec9ea4..8645aa8 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -261,9 +261,9 @@ void SMTPClientBase::setServerName(const char *pServerName) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
     delete []mServerName;
-    size_t server_name_len = strlen(pServerName);
+    size_t server_name_len = servername_str.length();
     mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
+    strncpy(mServerName, servername_str.c_str(), server_name_len);
     mServerName[server_name_len] = '\0';
 }
 
@@ -276,8 +276,9 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
+    auto *credential = new Credential(pCredential);
     delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = credential;
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
-- 
2.43.0


From 4db25fecd38da48758fec80ed12cac6c66105ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 14/43] fix: let copies of the C++ clients own their
 credentials

---
 src/cpp/forcedsecuresmtpclient.cpp        | 5 ++---
 src/cpp/forcedsecuresmtpclient.hpp        | 3 ++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 ++---
 src/cpp/opportunisticsecuresmtpclient.hpp | 3 ++-
 src/cpp/smtpclient.cpp                    | 5 ++---
 src/cpp/smtpclient.hpp                    | 3 ++-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 5488cc3..6b104bf 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..bb5bd8f 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPFORCEDSECURESMTPCLIENT_H
 #define CPPFORCEDSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../forcedsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 423b050..83740aa 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..d52648b 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPOPPORTUNISTICSECURESMTPCLIENT_H
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../opportunisticsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 79e167e..1612df6 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -28,7 +28,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -50,8 +50,7 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..8ed4abe 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPSMTPCLIENT
 #define CPPSMTPCLIENT
 
+#include <memory>
 #include <string>
 #include "credential.hpp"
 #include "message.hpp"
@@ -143,7 +144,7 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From cdf41ed940e5417fd66d889dad1266508f42a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 15/43] fix: keep the recommended authentication method in
 cpp::SmtpClient

---
 src/cpp/smtpclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1612df6..d3642f4 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -49,7 +49,8 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
     mCredential = std::make_shared<const Credential>(pCredential);
 }
 
-- 
2.43.0


From e8cf7a4814c36b39c98bc8b3cdc2b9014652a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 16/43] fix: report and survive interrupted and failed calls
 while connecting

---
 src/smtpclientbase.cpp | 100 ++++++++++++++++++++++++++---------------
 src/smtpclientbase.h   |   5 +++
 2 files changed, 69 insertions(+), 36 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 8645aa8..e27055f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1,6 +1,7 @@
 #include "smtpclientbase.h"
 #include <algorithm>
 #include <cerrno>
+#include <chrono>
 #include <cstddef>
 #include <cstring>
 #include <limits>
@@ -31,6 +32,7 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/in.h>
+    #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
     #include <unistd.h>
@@ -496,12 +498,11 @@ void SMTPClientBase::doWSACleanup() {
 #else
 int SMTPClientBase::initializeSessionPOSIX() {
     // POSIX socket version
-    fd_set fdset;
-    struct timeval tv;
     socklen_t lon;
     int valopt;
     mSock = socket(AF_INET, SOCK_STREAM, 0);
     if (mSock < 0) {
+        clearSocketFileDescriptor();
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
@@ -518,7 +519,8 @@ int SMTPClientBase::initializeSessionPOSIX() {
            host->h_addr,
            static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    const int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
+    if (socketSetFlagsResult != 0) {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
@@ -526,39 +528,33 @@ int SMTPClientBase::initializeSessionPOSIX() {
     addCommunicationLogItem(ss.str().c_str());
     int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
     if (res < 0) {
-        if (errno == EINPROGRESS) {
-            do {
-                tv.tv_sec = mCommandTimeOut;
-                tv.tv_usec = 0;
-                FD_ZERO(&fdset);
-                FD_SET(mSock, &fdset);
-                res = select(mSock+1, NULL, &fdset, NULL, &tv);
-                if (res < 0 && errno != EINTR) {
-                    setLastSocketErrNo(errno);
-                    addCommunicationLogItem(strerror(errno));
-                    return SOCKET_INIT_SESSION_CONNECT_ERROR;
-                } else if (res > 0) {
-                    // Socket selected for write
-                    lon = sizeof(int);
-                    if (getsockopt(mSock,
-                                   SOL_SOCKET,
-                                   SO_ERROR,
-                                   static_cast<void*>(&valopt), &lon) < 0) {
-                        setLastSocketErrNo(errno);
-                        addCommunicationLogItem(strerror(errno));
-                        return SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR;
-                    }
-                    // Check the value returned...
-                    if (valopt) {
-                        setLastSocketErrNo(valopt);
-                        addCommunicationLogItem(strerror(valopt));
-                        return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;
-                    }
-                    break;
-                } else {
-                    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
-                }
-            } while (1);
+        // An interrupted connect goes on in the background
+        if (errno == EINPROGRESS || errno == EINTR) {
+            res = waitForSocket(true, getCommandDeadline());
+            if (res < 0) {
+                setLastSocketErrNo(errno);
+                addCommunicationLogItem(strerror(errno));
+                return SOCKET_INIT_SESSION_CONNECT_ERROR;
+            }
+            if (res == 0) {
+                return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+            }
+            // Socket selected for write
+            lon = sizeof(int);
+            if (getsockopt(mSock,
+                           SOL_SOCKET,
+                           SO_ERROR,
+                           static_cast<void*>(&valopt), &lon) < 0) {
+                setLastSocketErrNo(errno);
+                addCommunicationLogItem(strerror(errno));
+                return SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR;
+            }
+            // Check the value returned...
+            if (valopt) {
+                setLastSocketErrNo(valopt);
+                addCommunicationLogItem(strerror(valopt));
+                return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;
+            }
         } else {
             setLastSocketErrNo(errno);
             addCommunicationLogItem(strerror(errno));
@@ -574,6 +570,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
@@ -618,6 +615,37 @@ int SMTPClientBase::setSocketToBlocking() {
 }
 
 
+std::chrono::steady_clock::time_point SMTPClientBase::getCommandDeadline() const {
+    return std::chrono::steady_clock::now() + std::chrono::seconds(mCommandTimeOut);
+}
+
+int SMTPClientBase::waitForSocket(bool pForWriting, std::chrono::steady_clock::time_point pDeadline) const {
+    while (true) {
+        auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(pDeadline - std::chrono::steady_clock::now()).count();
+        if (remaining < 0) {
+            remaining = 0;
+        }
+#ifdef _WIN32
+        fd_set fdset;
+        FD_ZERO(&fdset);
+        FD_SET(mSock, &fdset);
+        struct timeval tv;
+        tv.tv_sec = static_cast<long>(remaining / 1000);
+        tv.tv_usec = static_cast<long>(remaining % 1000 * 1000);
+        return select(mSock+1, pForWriting ? nullptr : &fdset, pForWriting ? &fdset : nullptr, nullptr, &tv);
+#else
+        // Unlike select, poll has no upper limit on the value of the file descriptor
+        struct pollfd pfd {};
+        pfd.fd = mSock;
+        pfd.events = pForWriting ? POLLOUT : POLLIN;
+        const int res = poll(&pfd, 1, static_cast<int>(std::min<decltype(remaining)>(remaining, (std::numeric_limits<int>::max)())));
+        if (res >= 0 || errno != EINTR) {
+            return res;
+        }
+#endif
+    }
+}
+
 int SMTPClientBase::sendServerIdentification() {
     const int EHLO_SUCCESS_CODE = 250;
     std::string ehlo { "ehlo localhost\r\n" };
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 80f420e..dd6f4e6 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -1,6 +1,7 @@
 #ifndef SMTPCLIENTBASE_H
 #define SMTPCLIENTBASE_H
 
+#include <chrono>
 #include <string>
 #include <vector>
 #include "attachment.h"
@@ -172,6 +173,10 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     #endif
     int setSocketToNonBlocking();
     int setSocketToBlocking();
+    // Return the instant at which the command timeout, starting now, is over
+    std::chrono::steady_clock::time_point getCommandDeadline() const;
+    // Return a positive value if the socket is ready, 0 if the deadline is reached and a negative value for an error
+    int waitForSocket(bool pForWriting, std::chrono::steady_clock::time_point pDeadline) const;
     int sendServerIdentification();
     virtual int establishConnectionWithServer() = 0;
     virtual int checkServerGreetings();
-- 
2.43.0


From c30e72124f17a5c7f616b43abde68307e675cbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 17/43] fix: send commands completely and without SIGPIPE

---
 src/smtpclientbase.cpp | 46 +++++++++++++++++++++++++++++++++---------
 src/smtpclientbase.h   |  1 +
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index e27055f..39efdd9 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -695,21 +695,47 @@ int SMTPClientBase::checkServerGreetings() {
 }
 
 int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
-#ifdef _WIN32
-    size_t pCommandSize = strlen(pCommand);
-    if (static_cast<intmax_t>(pCommandSize) > (std::numeric_limits<int>::max)()) {
+    if (!sendData(pCommand, strlen(pCommand))) {
+        // The connection is unusable, don't try to send QUIT
+        mIsConnected = false;
+        cleanup();
         return pErrorCode;
     }
-    int commandSize = static_cast<int>(pCommandSize);
+    return 0;
+}
+
+bool SMTPClientBase::sendData(const char *pData, size_t pLength) {
+    if (mSock == 0) {
+        // The connection has been closed
+        return false;
+    }
+    size_t index = 0;
+    while (index < pLength) {
+#ifdef _WIN32
+        const size_t max_length = static_cast<size_t>((std::numeric_limits<int>::max)());
+        const ssize_t bytes_sent = send(mSock, pData + index, static_cast<int>((std::min)(pLength - index, max_length)), 0);
+        const int last_error = bytes_sent < 0 ? WSAGetLastError() : 0;
+        const bool interrupted = last_error == WSAEINTR;
+        const bool would_block = last_error == WSAEWOULDBLOCK;
 #else
-    size_t commandSize = strlen(pCommand);
+    #ifdef MSG_NOSIGNAL
+        const int flags = MSG_NOSIGNAL;
+    #else
+        const int flags = 0;
+    #endif
+        const ssize_t bytes_sent = send(mSock, pData + index, pLength - index, flags);
+        const int last_error = bytes_sent < 0 ? errno : 0;
+        const bool interrupted = last_error == EINTR;
+        const bool would_block = last_error == EAGAIN;
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        cleanup();
-        return pErrorCode;
+        if (bytes_sent >= 0) {
+            index += static_cast<size_t>(bytes_sent);
+        } else if (!interrupted && (!would_block || waitForSocket(true, getCommandDeadline()) <= 0)) {
+            setLastSocketErrNo(last_error);
+            return false;
+        }
     }
-    return 0;
+    return true;
 }
 
 int SMTPClientBase::getRawCommandReply() {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index dd6f4e6..e112d6d 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -182,6 +182,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     virtual int checkServerGreetings();
     // Methods to send commands to the server
     void setLastServerResponse(const char *pResponse);
+    virtual bool sendData(const char *pData, size_t pLength);
     int sendRawCommand(const char *pCommand, int pErrorCode);
     int sendRawCommand(const char *pCommand, int pErrorCode, int pTimeoutCode);
     int getRawCommandReply();
-- 
2.43.0


From 2731815206a4c6bf412e14b275ee9c8083e5fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 18/43] fix: read the complete reply of the server within the
 command timeout

---
 src/smtpclientbase.cpp | 96 +++++++++++++++++++++++++-----------------
 src/smtpclientbase.h   |  7 +++
 2 files changed, 65 insertions(+), 38 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 39efdd9..fce6f10 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -674,24 +674,14 @@ int SMTPClientBase::sendServerIdentification() {
 }
 
 int SMTPClientBase::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0)) <= 0
-            && waitTime < mCommandTimeOut) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < mCommandTimeOut) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    int status_code = getServerReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    }
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
 int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
@@ -739,35 +729,65 @@ bool SMTPClientBase::sendData(const char *pData, size_t pLength) {
 }
 
 int SMTPClientBase::getRawCommandReply() {
-    std::string fullResponse;
-    bool receivedAtLeastOnce = false;
+    const auto deadline = getCommandDeadline();
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime {0};
-    setSocketToNonBlocking();
-
-    do {
-        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
-        if (bytes_received > 0) {
-            receivedAtLeastOnce = true;
-            outbuf[bytes_received] = '\0';  // Null-terminate the received data
-            fullResponse += outbuf;
-        } else {
-            if (bytes_received == -1 && receivedAtLeastOnce) {
-                break;
-            }
-            crossPlatformSleep(1);
-            waitTime += 1;
+    std::string fullResponse;
+    bool complete = false;
+    while (!complete && fullResponse.length() < MAX_SERVERRESPONSE_LENGTH) {
+        const int bytes_received = receiveData(outbuf, SERVERRESPONSE_BUFFER_LENGTH, deadline);
+        if (bytes_received <= 0) {
+            break;
         }
-    } while (waitTime < mCommandTimeOut);
-    setSocketToBlocking();
-    if (waitTime < mCommandTimeOut || receivedAtLeastOnce) {
+        // A null character would hide the remaining part of the reply
+        std::replace(outbuf, outbuf + bytes_received, '\0', '?');
+        fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
+        // What would follow a complete reply was sent by the server without being asked
+        const size_t reply_length = getServerReplyLength(fullResponse);
+        complete = reply_length > 0;
+        fullResponse.resize(complete ? reply_length : fullResponse.length());
+    }
+    if (!fullResponse.empty()) {
         setLastServerResponse(fullResponse.c_str());
         addCommunicationLogItem(fullResponse.c_str(), "s");
-        return extractReturnCode(fullResponse.c_str());
+    }
+    return complete ? extractReturnCode(fullResponse.c_str()) : -1;
+}
+
+int SMTPClientBase::receiveData(char *pBuffer, size_t pLength, std::chrono::steady_clock::time_point pDeadline) {
+    while (mSock != 0 && waitForSocket(false, pDeadline) > 0) {
+#ifdef _WIN32
+        const int bytes_received = recv(mSock, pBuffer, static_cast<int>(pLength), 0);
+        const int last_error = bytes_received < 0 ? WSAGetLastError() : 0;
+        const bool retry = last_error == WSAEINTR || last_error == WSAEWOULDBLOCK;
+#else
+        const int bytes_received = static_cast<int>(recv(mSock, pBuffer, pLength, 0));
+        const int last_error = bytes_received < 0 ? errno : 0;
+        const bool retry = last_error == EINTR || last_error == EAGAIN;
+#endif
+        if (!retry) {
+            setLastSocketErrNo(last_error);
+            return bytes_received;
+        }
     }
     return -1;
 }
 
+size_t SMTPClientBase::getServerReplyLength(const std::string &pReply) {
+    // All the lines of a reply begin with the same code, only the last one
+    // has no hyphen behind it.
+    const size_t CODE_LENGTH = 3;
+    size_t line_start { 0 };
+    size_t line_end { 0 };
+    while ((line_end = pReply.find('\n', line_start)) != std::string::npos) {
+        if (pReply.compare(line_start, CODE_LENGTH, pReply, 0, CODE_LENGTH) == 0
+            && pReply.compare(line_start + (std::min)(CODE_LENGTH, line_end - line_start), 1, "-") != 0) {
+            return line_end + 1;
+        }
+        line_start = line_end + 1;
+    }
+    return 0;
+}
+
 int SMTPClientBase::getServerReply() {
     return getRawCommandReply();
 }
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index e112d6d..05ecbc4 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -28,6 +28,9 @@
 /** The max length of the server response buffer */
 #define SERVERRESPONSE_BUFFER_LENGTH 1024
 
+/** The max length of a complete server response */
+#define MAX_SERVERRESPONSE_LENGTH 1048576
+
 namespace jed_utils {
 /** @brief The SMTPClientBase represents the base class for all SMTP clients
  *  that will or will not use encryption for communication.
@@ -186,6 +189,10 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int sendRawCommand(const char *pCommand, int pErrorCode);
     int sendRawCommand(const char *pCommand, int pErrorCode, int pTimeoutCode);
     int getRawCommandReply();
+    // Return the number of bytes received, 0 if the connection is closed and a negative value for an error or a timeout
+    virtual int receiveData(char *pBuffer, size_t pLength, std::chrono::steady_clock::time_point pDeadline);
+    // Return the length of the reply, up to the end of its last line, or 0 if the reply is not complete
+    static size_t getServerReplyLength(const std::string &pReply);
     virtual int sendCommand(const char *pCommand, int pErrorCode) = 0;
     virtual int sendCommandWithFeedback(const char *pCommand, int pErrorCode, int pTimeoutCode) = 0;
     virtual int getServerReply() = 0;
-- 
2.43.0


From 235d79edd093fd68d52320d289368ad0c9e36e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 19/43] fix: bound the TLS session by the command timeout and
 survive its failures

---
 src/forcedsecuresmtpclient.cpp |  21 ------
 src/forcedsecuresmtpclient.h   |   1 -
 src/securesmtpclientbase.cpp   | 133 ++++++++++++++++++++++++---------
 src/securesmtpclientbase.h     |   8 ++
 src/smtpclientbase.cpp         |   7 +-
 5 files changed, 111 insertions(+), 59 deletions(-)

diff --git a/src/forcedsecuresmtpclient.cpp b/src/forcedsecuresmtpclient.cpp
index e8bf919..ff767a8 100644
--- a/src/forcedsecuresmtpclient.cpp
+++ b/src/forcedsecuresmtpclient.cpp
@@ -77,24 +77,3 @@ int ForcedSecureSMTPClient::establishConnectionWithServer() {
     }
     return 0;
 }
-
-int ForcedSecureSMTPClient::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = BIO_read(getBIO(), outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
-    }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
-}
-
diff --git a/src/forcedsecuresmtpclient.h b/src/forcedsecuresmtpclient.h
index 7b8b9bc..65de197 100644
--- a/src/forcedsecuresmtpclient.h
+++ b/src/forcedsecuresmtpclient.h
@@ -48,7 +48,6 @@ class FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : public SecureSMTPClien
 
  protected:
     int establishConnectionWithServer() override;
-    int checkServerGreetings() override;
 };
 }  // namespace jed_utils
 
diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..257ee3e 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -1,6 +1,8 @@
 #include "securesmtpclientbase.h"
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
+#include <algorithm>
+#include <limits>
 #include <string>
 #include <utility>
 #include "serveroptionsanalyzer.h"
@@ -20,12 +22,53 @@
     #include <netdb.h>
     #include <netinet/in.h>
     #include <openssl/bio.h> /* BasicInput/Output streams */
+    #include <signal.h>
     #include <unistd.h>
 #endif
 
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+#ifdef _WIN32
+struct SigPipeGuard {
+    SigPipeGuard() {}
+};
+#else
+// OpenSSL writes to the socket without MSG_NOSIGNAL. This guard prevents the
+// SIGPIPE of a connection closed by the server from killing the process.
+class SigPipeGuard {
+ public:
+    SigPipeGuard() {
+        sigset_t pending;
+        sigemptyset(&mSet);
+        sigaddset(&mSet, SIGPIPE);
+        sigemptyset(&pending);
+        sigpending(&pending);
+        mWasPending = sigismember(&pending, SIGPIPE) == 1;
+        pthread_sigmask(SIG_BLOCK, &mSet, &mPreviousMask);
+    }
+    ~SigPipeGuard() {
+        sigset_t pending;
+        sigemptyset(&pending);
+        sigpending(&pending);
+        if (!mWasPending && sigismember(&pending, SIGPIPE) == 1) {
+            int signal_number {0};
+            sigwait(&mSet, &signal_number);
+        }
+        pthread_sigmask(SIG_SETMASK, &mPreviousMask, nullptr);
+    }
+    SigPipeGuard(const SigPipeGuard &) = delete;
+    SigPipeGuard& operator=(const SigPipeGuard &) = delete;
+
+ private:
+    sigset_t mSet;
+    sigset_t mPreviousMask;
+    bool mWasPending;
+};
+#endif
+}  // namespace
+
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
     : SMTPClientBase(pServerName, pPort),
     mBIO(nullptr),
@@ -106,6 +149,7 @@ void SecureSMTPClientBase::cleanup() {
         sendQuitCommand();
     }
     mIsConnected = false;
+    SigPipeGuard guard;
     if (mCTX != nullptr) {
         SSL_CTX_free(mCTX);
     }
@@ -209,7 +253,9 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Try to connect */
-    if (BIO_do_connect(mBIO) <= 0) {
+    SigPipeGuard guard;
+    const auto deadline = getCommandDeadline();
+    if (!waitForCompletion(deadline, [this]() { return BIO_do_connect(mBIO); })) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR;
@@ -217,7 +263,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
 
     /* Try to do the handshake */
     addCommunicationLogItem("<Negotiate a TLS session>", "c & s");
-    if (BIO_do_handshake(mBIO) <= 0) {
+    if (!waitForCompletion(deadline, [this]() { return BIO_do_handshake(mBIO); })) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_HANDSHAKE_ERROR;
@@ -286,47 +332,66 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
-    if (BIO_puts(mBIO, pCommand) < 0) {
-        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        cleanup();
-        return pErrorCode;
-    }
-    return 0;
+    return sendRawCommand(pCommand, pErrorCode);
 }
 
 int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErrorCode, int pTimeoutCode) {
-    // Check if we are in the TLS mode of before it
+    return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
+}
+
+int SecureSMTPClientBase::getServerReply() {
+    return getRawCommandReply();
+}
+
+bool SecureSMTPClientBase::sendData(const char *pData, size_t pLength) {
+    // Check if we are in the TLS mode or before it
     if (mBIO == nullptr) {
-        return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
+        return SMTPClientBase::sendData(pData, pLength);
     }
-    if (BIO_puts(mBIO, pCommand) < 0) {
-        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        cleanup();
-        return pErrorCode;
+    SigPipeGuard guard;
+    size_t index = 0;
+    while (index < pLength) {
+        ERR_clear_error();
+        const int max_length = (std::numeric_limits<int>::max)();
+        const int bytes_sent = BIO_write(mBIO, pData + index, static_cast<int>((std::min)(pLength - index, static_cast<size_t>(max_length))));
+        if (bytes_sent > 0) {
+            index += static_cast<size_t>(bytes_sent);
+        } else if (!waitForBIO(getCommandDeadline())) {
+            setLastSocketErrNo(static_cast<int>(ERR_get_error()));
+            return false;
+        }
     }
+    return true;
+}
 
-    int serverReplyCode = getServerReply();
-    if (serverReplyCode != -1) {
-        return serverReplyCode;
+int SecureSMTPClientBase::receiveData(char *pBuffer, size_t pLength, std::chrono::steady_clock::time_point pDeadline) {
+    if (mBIO == nullptr) {
+        return SMTPClientBase::receiveData(pBuffer, pLength, pDeadline);
+    }
+    SigPipeGuard guard;
+    while (true) {
+        ERR_clear_error();
+        const int bytes_received = BIO_read(mBIO, pBuffer, static_cast<int>(pLength));
+        if (bytes_received > 0) {
+            return bytes_received;
+        }
+        if (!waitForBIO(pDeadline)) {
+            setLastSocketErrNo(static_cast<int>(ERR_get_error()));
+            return -1;
+        }
     }
+}
 
-    cleanup();
-    return pTimeoutCode;
+bool SecureSMTPClientBase::waitForCompletion(std::chrono::steady_clock::time_point pDeadline, const std::function<long()> &pStep) {
+    do {
+        ERR_clear_error();
+        if (pStep() > 0) {
+            return true;
+        }
+    } while (waitForBIO(pDeadline));
+    return false;
 }
 
-int SecureSMTPClientBase::getServerReply() {
-    unsigned int waitTime {0};
-    int bytes_received {0};
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        setLastServerResponse(outbuf);
-        addCommunicationLogItem(outbuf, "s");
-        return extractReturnCode(outbuf);
-    }
-    return -1;
+bool SecureSMTPClientBase::waitForBIO(std::chrono::steady_clock::time_point pDeadline) {
+    return BIO_should_retry(mBIO) && waitForSocket(BIO_should_write(mBIO), pDeadline) > 0;
 }
diff --git a/src/securesmtpclientbase.h b/src/securesmtpclientbase.h
index 60e9321..eeb7c3b 100644
--- a/src/securesmtpclientbase.h
+++ b/src/securesmtpclientbase.h
@@ -2,6 +2,8 @@
 #define SECURESMTPCLIENTBASE_H
 
 #include <openssl/ssl.h>
+#include <chrono>
+#include <functional>
 #include "smtpclientbase.h"
 
 #ifdef _WIN32
@@ -68,8 +70,14 @@ class SECURESMTPCLIENTBASE_API SecureSMTPClientBase : public SMTPClientBase {
     int sendCommand(const char *pCommand, int pErrorCode) override;
     int sendCommandWithFeedback(const char *pCommand, int pErrorCode, int pTimeoutCode) override;
     int getServerReply() override;
+    bool sendData(const char *pData, size_t pLength) override;
+    int receiveData(char *pBuffer, size_t pLength, std::chrono::steady_clock::time_point pDeadline) override;
 
  private:
+    // Wait until the BIO operation that could not be done can be tried again
+    bool waitForBIO(std::chrono::steady_clock::time_point pDeadline);
+    // Try a step of the TLS negotiation until it succeeds
+    bool waitForCompletion(std::chrono::steady_clock::time_point pDeadline, const std::function<long()> &pStep);
     // Attributes used to communicate with the server
     BIO *mBIO;
     SSL_CTX *mCTX;
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index fce6f10..5040fc3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -435,7 +435,8 @@ int SMTPClientBase::initializeSessionWinSock() {
         doWSACleanup();
         return SOCKET_INIT_SESSION_CONNECT_ERROR;
     }
-    return 0;
+    // The socket is used in non-blocking mode so that no call can wait longer than the command timeout
+    return setSocketToNonBlockingWinSock();
 }
 
 int SMTPClientBase::setSocketToNonBlockingWinSock() {
@@ -561,8 +562,8 @@ int SMTPClientBase::initializeSessionPOSIX() {
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
     }
-    // Set to blocking mode again...
-    return setSocketToBlockingPOSIX();
+    // The socket stays in non-blocking mode so that no call can wait longer than the command timeout
+    return 0;
 }
 
 int SMTPClientBase::setSocketToNonBlockingPOSIX() {
-- 
2.43.0


From e0e00cba8a51c09ea27eb0e5869d9cf9b1b70d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 20/43] fix: close the connection when a mail can not be sent

---
 src/securesmtpclientbase.cpp |  6 ++++--
 src/smtpclient.cpp           |  6 ++++--
 src/smtpclientbase.cpp       | 25 +++++++++++--------------
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 257ee3e..645132b 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -145,10 +145,12 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    // The flag is cleared first because a failure to send QUIT leads here again
+    const bool quit_needed = getBatchMode() && mIsConnected;
+    mIsConnected = false;
+    if (quit_needed) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     SigPipeGuard guard;
     if (mCTX != nullptr) {
         SSL_CTX_free(mCTX);
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..85bf909 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -45,10 +45,12 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    // The flag is cleared first because a failure to send QUIT leads here again
+    const bool quit_needed = getBatchMode() && mIsConnected;
+    mIsConnected = false;
+    if (quit_needed) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     int socket { getSocketFileDescriptor() };
     if (socket != 0) {
 #ifdef _WIN32
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 5040fc3..81ece81 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -348,30 +348,25 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     if (!mIsConnected) {
         int client_connect_ret_code = establishConnectionWithServer();
         if (client_connect_ret_code != 0) {
+            cleanup();
             return client_connect_ret_code;
         }
     }
     mIsConnected = true;
 
-    int set_mail_recipients_ret_code = setMailRecipients(pMsg);
-    if (set_mail_recipients_ret_code != 0) {
-        return set_mail_recipients_ret_code;
+    int ret_code = setMailRecipients(pMsg);
+    if (ret_code == 0) {
+        ret_code = setMailHeaders(pMsg);
     }
-
-    int set_mail_headers_ret_code = setMailHeaders(pMsg);
-    if (set_mail_headers_ret_code != 0) {
-        return set_mail_headers_ret_code;
-    }
-
-    int set_mail_body_ret_code = setMailBody(pMsg);
-    if (set_mail_body_ret_code != 0) {
-        return set_mail_body_ret_code;
+    if (ret_code == 0) {
+        ret_code = setMailBody(pMsg);
     }
 
-    if (!mBatchMode) {
+    // In batch mode the connection is kept, unless the mail could not be sent
+    if (ret_code != 0 || !mBatchMode) {
         cleanup();
     }
-    return 0;
+    return ret_code;
 }
 
 
@@ -421,6 +416,7 @@ int SMTPClientBase::initializeSessionWinSock() {
         int wsa_error = WSAGetLastError();
         addWSAMessageToCommunicationLog(wsa_error);
         setLastSocketErrNo(wsa_error);
+        clearSocketFileDescriptor();
         doWSACleanup();
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
@@ -803,6 +799,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode, int pTi
         return serverReplyCode;
     }
 
+    mIsConnected = false;
     cleanup();
     return pTimeoutCode;
 }
-- 
2.43.0


From 2c78d4339584dc24283030fe2c59e1e12a60ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 21/43] fix: close the connection and free the memory of a
 client that is assigned

---
 src/securesmtpclientbase.cpp | 7 +++----
 src/smtpclientbase.cpp       | 7 +++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 645132b..40ca2de 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -93,10 +93,8 @@ SecureSMTPClientBase::SecureSMTPClientBase(const SecureSMTPClientBase& other)
 // Assignment operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(const SecureSMTPClientBase& other) {
     if (this != &other) {
+        // The base class closes the current connection
         SMTPClientBase::operator=(other);
-        mBIO = nullptr;
-        mCTX = nullptr;
-        mSSL = nullptr;
         mAcceptSelfSignedCert = other.mAcceptSelfSignedCert;
     }
     return *this;
@@ -120,6 +118,8 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        // The base class closes the current connection
+        SMTPClientBase::operator=(std::move(other));
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
@@ -131,7 +131,6 @@ SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& oth
         other.mCTX = nullptr;
         other.mSSL = nullptr;
         other.mAcceptSelfSignedCert = false;
-        SMTPClientBase::operator=(std::move(other));
     }
     return *this;
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 81ece81..be19142 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -115,6 +115,8 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
 // Assignment operator
 SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
     if (this != &other) {
+        // Close the current connection
+        cleanup();
         // mServerName
         delete[] mServerName;
         size_t server_name_len = strlen(other.mServerName);
@@ -126,6 +128,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mBatchMode
         mBatchMode = other.mBatchMode;
         // mCommunicationLog
+        delete[] mCommunicationLog;
         mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
         if (mCommunicationLog != nullptr) {
             size_t communication_log_len = strlen(other.mCommunicationLog);
@@ -134,6 +137,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         }
         mCommunicationLogSize = other.mCommunicationLogSize;
         // mLastServerResponse
+        delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
         if (mLastServerResponse != nullptr) {
             size_t last_server_response_len = strlen(other.mLastServerResponse);
@@ -146,6 +150,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mAuthOptions;
         mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
         // mCredential
+        delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
         mSock = 0;
@@ -190,6 +195,8 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
 // Move assignement operator
 SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
     if (this != &other) {
+        // Close the current connection
+        cleanup();
         delete[] mServerName;
         delete[] mCommunicationLog;
         delete[] mLastServerResponse;
-- 
2.43.0


From 8fe9995b30cd2ef18ba3ac80713214ca0c864589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 22/43] fix: leave the unencrypted mode when a TLS session
 starts

---
 src/securesmtpclientbase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 40ca2de..b2140fa 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -296,6 +296,8 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     addCommunicationLogItem("TLS session ready!");
+    // A previous session of this client may have been unencrypted
+    setKeepUsingBaseSendCommands(false);
 
 #ifdef _WIN32
     CertFreeCertificateContext(pContext);
-- 
2.43.0


From 6f8928c8bbb34c634921968ace6c5bd489c26bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 23/43] fix: accept server names of any length when TLS starts

---
 src/securesmtpclientbase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index b2140fa..4572afb 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -211,13 +211,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    const std::string name { std::string(getServerName()) + ":" + std::to_string(getServerPort()) };
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
-- 
2.43.0


From 13f2f8b2ee5f94aa652e30c424367ee4e002be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 24/43] fix: report a server that offers no authentication

---
 src/smtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index be19142..94d964a 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -839,6 +839,10 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        if (mAuthOptions == nullptr) {
+            // The server offers no authentication at all
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From b35f9d7fe21b2263a6f135e78d9a0a3a7051bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 25/43] fix: report a connection lost while sending recipients
 and headers

---
 src/smtpclientbase.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 94d964a..df35d99 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -966,15 +966,19 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
     int rcpt_to_ret_code = RECIPIENT_OK;
-    std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
-            std::stringstream ss_rcpt_to;
-            ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
-            addCommunicationLogItem(ss_rcpt_to.str().c_str());
-            int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
-            if (ret_code != RECIPIENT_OK) {
+    for (size_t i = 0; i < count; i++) {
+        std::stringstream ss_rcpt_to;
+        ss_rcpt_to << "RCPT TO: <"s << list[i]->getEmailAddress() << ">\r\n"s;
+        addCommunicationLogItem(ss_rcpt_to.str().c_str());
+        int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
+        if (ret_code != RECIPIENT_OK) {
             rcpt_to_ret_code = ret_code;
-            }
-            });
+        }
+        if (ret_code < 0) {
+            // The connection is lost
+            break;
+        }
+    }
     return rcpt_to_ret_code;
 }
 
@@ -1004,13 +1008,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From ce6db44a011d26c8e9d7cdf52fc41ff09f0ee346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 26/43] fix: send the mail text with dot transparency and CRLF
 line endings

---
 src/smtpclientbase.cpp | 24 ++++++++++++++++++++++++
 src/smtpclientbase.h   |  1 +
 2 files changed, 25 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index df35d99..63bf6d6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1066,6 +1066,8 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
         body_real += attachments_text;
     }
 
+    body_real = encodeMailData(body_real);
+
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
         // Split into chunk
@@ -1103,6 +1105,28 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
     return 0;
 }
 
+std::string SMTPClientBase::encodeMailData(const std::string &pData) {
+    // Lines end with CRLF and a dot that begins a line is doubled (RFC 5321 section 4.5.2)
+    std::string retval;
+    bool line_start { true };
+    for (size_t i = 0; i < pData.length(); i++) {
+        if (pData[i] == '\r' || pData[i] == '\n') {
+            if (pData[i] == '\r' && i + 1 < pData.length() && pData[i + 1] == '\n') {
+                i++;
+            }
+            retval += "\r\n";
+            line_start = true;
+            continue;
+        }
+        if (line_start && pData[i] == '.') {
+            retval += '.';
+        }
+        retval += pData[i];
+        line_start = false;
+    }
+    return retval;
+}
+
 void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPrefix) {
     std::string item { pItem };
     if (strcmp(pPrefix, "c") == 0) {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 05ecbc4..48dc46b 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -211,6 +211,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
+    static std::string encodeMailData(const std::string &pData);
     static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
-- 
2.43.0


From 041e22f1e2c7c368cce3cdd7182a03c90a1c00e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 27/43] fix: use a MIME boundary that the text does not contain
 and close the multipart

---
 src/smtpclientbase.cpp | 27 ++++++++++++++++++---------
 src/smtpclientbase.h   |  3 ++-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 63bf6d6..c99d5b4 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1033,7 +1033,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     }
 
     // Content-Type
-    std::string content_type { "Content-Type: multipart/related; boundary=sep\r\n\r\n" };
+    std::string content_type { "Content-Type: multipart/related; boundary="s + getBoundary(pMsg) + "\r\n\r\n" };
     addCommunicationLogItem(content_type.c_str());
     int header_content_type_ret_code = (*this.*sendCommandPtr)(content_type.c_str(), CLIENT_SENDMAIL_HEADERCONTENTTYPE_ERROR);
     if (header_content_type_ret_code != 0) {
@@ -1053,7 +1053,8 @@ int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErr
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
     std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
+    const std::string boundary { getBoundary(pMsg) };
+    body_ss << "--" << boundary << "\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
@@ -1061,10 +1062,8 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
     Attachment** arr_attachment = pMsg.getAttachments();
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
-    if (pMsg.getAttachmentsCount() > 0) {
-        std::string attachments_text = createAttachmentsText(vect_attachment);
-        body_real += attachments_text;
-    }
+    // The closing delimiter is needed even without attachments
+    body_real += createAttachmentsText(vect_attachment, boundary);
 
     body_real = encodeMailData(body_real);
 
@@ -1160,10 +1159,20 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
+std::string SMTPClientBase::getBoundary(const Message &pMsg) {
+    // The boundary must not appear in the text of the mail
+    const std::string body { pMsg.getBody() };
+    std::string retval { "sep" };
+    for (unsigned int i = 1; body.find("--" + retval) != std::string::npos; i++) {
+        retval = "sep" + std::to_string(i);
+    }
+    return retval;
+}
+
+std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
-        retval += "\r\n--sep\r\n";
+        retval += "\r\n--" + pBoundary + "\r\n";
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
             retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
@@ -1179,7 +1188,7 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
             delete[] b64;
         }
     }
-    retval += "\r\n--sep--";
+    retval += "\r\n--" + pBoundary + "--";
     return retval;
 }
 
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 48dc46b..f9f9951 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -212,7 +212,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
     static std::string encodeMailData(const std::string &pData);
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    static std::string getBoundary(const Message &pMsg);
+    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary);
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
-- 
2.43.0


From 1c244bbc7f041bda9579ec52ec82be4ff73fa738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 28/43] fix: quote the display names and file names that
 contain special characters

---
 src/messageaddress.cpp | 13 ++++++++++++-
 src/smtpclientbase.cpp | 23 ++++++++++++-----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index d52ec28..147dc08 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -104,7 +104,18 @@ MessageAddress::operator std::string() const {
     if (display_name.empty()) {
         retval << mEmailAddress;
     } else {
-        retval << mDisplayName << " <" << mEmailAddress << ">";
+        // A display name that contains special characters must be quoted (RFC 5322 section 3.2.3)
+        if (display_name.find_first_of("()<>[]:;@\\,.\"") != std::string::npos) {
+            std::string quoted_name;
+            for (const char c : display_name) {
+                if (c == '"' || c == '\\') {
+                    quoted_name += '\\';
+                }
+                quoted_name += c;
+            }
+            display_name = '"' + quoted_name + '"';
+        }
+        retval << display_name << " <" << mEmailAddress << ">";
     }
     return retval.str();
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c99d5b4..23cd344 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -993,14 +993,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Mail headers
     // From
-    std::stringstream from_header_ss;
-    const MessageAddress &from_addr = pMsg.getFrom();
-    if (strlen(from_addr.getDisplayName()) > 0) {
-        from_header_ss << from_addr.getDisplayName() << " <" << from_addr.getEmailAddress() << ">";
-    } else {
-        from_header_ss << from_addr.getEmailAddress();
-    }
-    int header_from_ret_code = addMailHeader("From", from_header_ss.str().c_str(), CLIENT_SENDMAIL_HEADERFROM_ERROR);
+    int header_from_ret_code = addMailHeader("From", std::string(pMsg.getFrom()).c_str(), CLIENT_SENDMAIL_HEADERFROM_ERROR);
     if (header_from_ret_code != 0) {
         return header_from_ret_code;
     }
@@ -1173,13 +1166,21 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
     std::string retval;
     for (const auto &item : pAttachments) {
         retval += "\r\n--" + pBoundary + "\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
+        // Quotes and backslashes of the name must be escaped
+        std::string name;
+        for (const char c : std::string(item->getName())) {
+            if (c == '"' || c == '\\') {
+                name += '\\';
+            }
+            name += c;
+        }
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
             retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
             retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
-- 
2.43.0


From aeda3f9f1adab248655b062dd2fa624985c07eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 29/43] fix: keep line breaks of the message fields out of
 commands and headers

---
 src/smtpclientbase.cpp | 21 +++++++++++++++------
 src/smtpclientbase.h   |  2 ++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 23cd344..a97603c 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -926,7 +926,7 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     std::vector<std::string> mailFormats;
     // Method 1, 2 and 3
     mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
-    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getDisplayName() + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
+    mailFormats.push_back("MAIL FROM: <"s + replaceCharacters(pMsg.getFrom().getDisplayName(), "\r\n<>") + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
     mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\r\n"s);
 
 
@@ -1018,7 +1018,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Subject
     std::stringstream ss_header_subject;
-    ss_header_subject << "Subject: " << pMsg.getSubject() << "\r\n";
+    ss_header_subject << "Subject: " << replaceCharacters(pMsg.getSubject(), "\r\n") << "\r\n";
     addCommunicationLogItem(ss_header_subject.str().c_str());
     int header_subject_ret_code = (*this.*sendCommandPtr)(ss_header_subject.str().c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
     if (header_subject_ret_code != 0) {
@@ -1038,7 +1038,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
 int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErrorCode) {
     std::stringstream ss_header_item;
-    ss_header_item << field << ": " << value << "\r\n";
+    ss_header_item << field << ": " << replaceCharacters(value, "\r\n") << "\r\n";
     addCommunicationLogItem(ss_header_item.str().c_str());
     return (*this.*sendCommandPtr)(ss_header_item.str().c_str(), pErrorCode);
 }
@@ -1097,6 +1097,14 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
     return 0;
 }
 
+std::string SMTPClientBase::replaceCharacters(std::string pText, const std::string &pCharacters) {
+    size_t index { 0 };
+    while ((index = pText.find_first_of(pCharacters, index)) != std::string::npos) {
+        pText[index] = ' ';
+    }
+    return pText;
+}
+
 std::string SMTPClientBase::encodeMailData(const std::string &pData) {
     // Lines end with CRLF and a dot that begins a line is doubled (RFC 5321 section 4.5.2)
     std::string retval;
@@ -1168,7 +1176,7 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
         retval += "\r\n--" + pBoundary + "\r\n";
         // Quotes and backslashes of the name must be escaped
         std::string name;
-        for (const char c : std::string(item->getName())) {
+        for (const char c : replaceCharacters(item->getName(), "\r\n")) {
             if (c == '"' || c == '\\') {
                 name += '\\';
             }
@@ -1176,8 +1184,9 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
         }
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
-            retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
-            retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
+            const std::string content_id { replaceCharacters(item->getContentId(), "\r\n") };
+            retval += "X-Attachment-Id: " + content_id + "\r\n";
+            retval += "Content-ID: <" + content_id + ">\r\n";
             retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
             retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index f9f9951..6103167 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -211,6 +211,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
+    // Replace by spaces the characters that could be taken for the end of a command or of a header
+    static std::string replaceCharacters(std::string pText, const std::string &pCharacters);
     static std::string encodeMailData(const std::string &pData);
     static std::string getBoundary(const Message &pMsg);
     static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary);
-- 
2.43.0


From f6ba906877aaf807ded2a811d89da28d0fd834e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 30/43] fix: do not take the beginning of a longer number for a
 reply code

---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index a97603c..53a2811 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1206,7 +1206,8 @@ int SMTPClientBase::extractReturnCode(const char *pOutput) {
     // A reply code is made of three digits, the first one is not zero
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
         const std::string code_str { pOutput, 3 };
-        if (code_str[0] != '0' && code_str.find_first_not_of("0123456789") == std::string::npos) {
+        const bool is_longer_number = pOutput[3] >= '0' && pOutput[3] <= '9';
+        if (code_str[0] != '0' && code_str.find_first_not_of("0123456789") == std::string::npos && !is_longer_number) {
             return std::stoi(code_str);
         }
     }
-- 
2.43.0


From c2c88aabad2dd784a1fba4a0b13fecd44d35a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 31/43] fix: do not wait for more lines after a complete EHLO
 reply

---
 src/securesmtpclientbase.cpp | 15 +--------------
 src/smtpclientbase.cpp       | 15 +--------------
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 4572afb..d9e5597 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -5,7 +5,6 @@
 #include <limits>
 #include <string>
 #include <utility>
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "socketerrors.h"
 #include "sslerrors.h"
@@ -315,20 +314,8 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
     if (tls_command_return_code != EHLO_SUCCESS_CODE) {
         return tls_command_return_code;
     }
-    std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SSL_CLIENT_INITSECURECLIENT_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
-    setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(returnedOptions.c_str()));
+    setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(getLastServerResponse()));
     return EHLO_SUCCESS_CODE;
 }
 
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 53a2811..2e67dec 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -15,7 +15,6 @@
 #include "message.h"
 #include "messageaddress.h"
 #include "serverauthoptions.h"
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "smtpserverstatuscodes.h"
 #include "socketerrors.h"
@@ -660,20 +659,8 @@ int SMTPClientBase::sendServerIdentification() {
     if (command_return_code != EHLO_SUCCESS_CODE) {
         return command_return_code;
     }
-    std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SOCKET_INIT_CLIENT_SEND_EHLO_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
-    setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
+    setAuthenticationOptions(extractAuthenticationOptions(getLastServerResponse()));
     return EHLO_SUCCESS_CODE;
 }
 
-- 
2.43.0


From e31caad9f2334783b63eaf9135ff0e1fe023c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 32/43] fix: take the AUTH mechanisms of every line of the EHLO
 reply

---
 src/smtpclientbase.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2e67dec..dc24a0a 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1248,9 +1248,21 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
     const std::string DELIMITER { "\r\n" };
     std::string ehlo_output { pEhloOutput };
     size_t ehlo_character_index { 0 };
-    while (retVal == nullptr && !ehlo_output.empty()) {
+    while (!ehlo_output.empty()) {
         ehlo_character_index = ehlo_output.find(DELIMITER);
-        retVal = ParseAuthenticationOptions(ehlo_output.substr(0, ehlo_character_index));
+        ServerAuthOptions *line_options = ParseAuthenticationOptions(ehlo_output.substr(0, ehlo_character_index));
+        if (retVal == nullptr) {
+            retVal = line_options;
+        } else if (line_options != nullptr) {
+            // The mechanisms may be announced in several lines
+            retVal->Plain |= line_options->Plain;
+            retVal->Login |= line_options->Login;
+            retVal->XOAuth2 |= line_options->XOAuth2;
+            retVal->Plain_ClientToken |= line_options->Plain_ClientToken;
+            retVal->OAuthBearer |= line_options->OAuthBearer;
+            retVal->XOAuth |= line_options->XOAuth;
+            delete line_options;
+        }
         ehlo_output.erase(0, ehlo_character_index == std::string::npos ? ehlo_character_index : ehlo_character_index + DELIMITER.length());
     }
     return retVal;
-- 
2.43.0


From 8db3be33a2688388ea50eea7e96d1d71753463ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 33/43] fix: keep a connection whose socket was given
 descriptor 0

---
 src/smtpclientbase.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index dc24a0a..9ce99fc 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -504,6 +504,13 @@ int SMTPClientBase::initializeSessionPOSIX() {
     socklen_t lon;
     int valopt;
     mSock = socket(AF_INET, SOCK_STREAM, 0);
+    if (mSock == 0) {
+        // Happens when the standard input is closed, but here 0 stands for no connection
+        mSock = fcntl(0, F_DUPFD, STDERR_FILENO + 1);
+        const int dup_errno = errno;
+        close(0);
+        errno = dup_errno;
+    }
     if (mSock < 0) {
         clearSocketFileDescriptor();
         setLastSocketErrNo(errno);
-- 
2.43.0


From 3f2284aadeee5071734ea581595218846de769c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 34/43] fix: resolve the server name without a result shared by
 all threads

---
 src/smtpclientbase.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9ce99fc..f6ab928 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -517,17 +517,18 @@ int SMTPClientBase::initializeSessionPOSIX() {
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-    struct hostent *host = gethostbyname(getServerName());
-    if (!host || host->h_length < 0) {
+    // The result of gethostbyname would be shared with the other threads of the process
+    struct addrinfo hints {};
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *host = nullptr;
+    if (getaddrinfo(getServerName(), nullptr, &hints, &host) != 0) {
         return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;
     }
     struct sockaddr_in saddr_in {};
-    saddr_in.sin_family = AF_INET;
+    memcpy(&saddr_in, host->ai_addr, sizeof(saddr_in));
+    freeaddrinfo(host);
     saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));
-    saddr_in.sin_addr.s_addr = 0;
-    memcpy(reinterpret_cast<char*>(&(saddr_in.sin_addr)),
-           host->h_addr,
-           static_cast<size_t>(host->h_length));
     // Set non-blocking
     const int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
     if (socketSetFlagsResult != 0) {
-- 
2.43.0


From 9f28e3dbd3090dbfc16bdf27dec462ff2ad714a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 35/43] fix: write the port in the log the same way in every
 locale

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f6ab928..7d87a34 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -427,7 +427,7 @@ int SMTPClientBase::initializeSessionWinSock() {
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
     std::stringstream ss;
-    ss << "Trying to connect to " << getServerName() << " on port " << getServerPort();
+    ss << "Trying to connect to " << getServerName() << " on port " << std::to_string(getServerPort());
     addCommunicationLogItem(ss.str().c_str());
     wsa_retVal = connect(mSock, result->ai_addr, static_cast<int>(result->ai_addrlen));
     if (wsa_retVal == SOCKET_ERROR) {
@@ -535,7 +535,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
-    ss << "Trying to connect to " << getServerName() << " on port " << getServerPort();
+    ss << "Trying to connect to " << getServerName() << " on port " << std::to_string(getServerPort());
     addCommunicationLogItem(ss.str().c_str());
     int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
     if (res < 0) {
-- 
2.43.0


From 2538669f0055d7cbc1e2dd016c7e1f13b518de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 36/43] fix: change the case of ASCII letters only, whatever
 the locale

---
 src/stringutils.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/stringutils.cpp b/src/stringutils.cpp
index cbb9b86..86fc609 100644
--- a/src/stringutils.cpp
+++ b/src/stringutils.cpp
@@ -5,11 +5,19 @@
 
 using namespace jed_utils;
 
+namespace {
+// The functions of <cctype> depend on the locale of the process (e.g. the
+// lowercase i has another uppercase letter in Turkish).
+bool isSpace(int ch) {
+    return ch == ' ' || (ch >= '\t' && ch <= '\r');
+}
+}  // namespace
+
 // Trim from start
 std::string StringUtils::trimLeft(const std::string &pString) {
     std::string s = pString;
     s.erase(s.begin(), std::find_if(s.begin(), s.end(), [](int ch) {
-                return !static_cast<bool>(std::isspace(ch));
+                return !isSpace(ch);
                 }));
     return s;
 }
@@ -18,7 +26,7 @@ std::string StringUtils::trimLeft(const std::string &pString) {
 std::string StringUtils::trimRight(const std::string &pString) {
     std::string s = pString;
     s.erase(std::find_if(s.rbegin(), s.rend(), [](int ch) {
-                return !static_cast<bool>(std::isspace(ch));
+                return !isSpace(ch);
                 }).base(), s.end());
     return s;
 }
@@ -34,13 +42,13 @@ std::string StringUtils::trim(const std::string &pString) {
 std::string StringUtils::toLower(const std::string &pString) {
     std::string transformed_string { pString };
     std::transform(pString.begin(), pString.end(), transformed_string.begin(),
-            [](unsigned char c){ return static_cast<char>(std::tolower(c)); });
+            [](char c){ return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c; });
     return transformed_string;
 }
 
 std::string StringUtils::toUpper(const std::string &pString) {
     std::string transformed_string { pString };
     std::transform(pString.begin(), pString.end(), transformed_string.begin(),
-            [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
+            [](char c){ return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c; });
     return transformed_string;
 }
-- 
2.43.0


From c1c73c0f1172da35baa0a71ca020cf8787b42e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 37/43] fix: recognise the Base64 alphabet whatever the locale

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 90bb563..7eb5b1c 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -37,7 +37,7 @@ static const std::string base64_chars =
 
 
 static inline bool is_base64(unsigned char c) {
-    return (isalnum(c) || (c == '+') || (c == '/'));
+    return base64_chars.find(static_cast<char>(c)) != std::string::npos;
 }
 
 std::string Base64::Encode(unsigned char const *bytes_to_encode, size_t in_len) {
-- 
2.43.0


From 4e23bd367511d1dc21c007c3a9598ad45aa9924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 38/43] fix: parse the EHLO reply without copying the remaining
 lines

---
 src/smtpclientbase.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 7d87a34..b9c3e13 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1254,11 +1254,11 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
         return retVal;
     }
     const std::string DELIMITER { "\r\n" };
-    std::string ehlo_output { pEhloOutput };
-    size_t ehlo_character_index { 0 };
-    while (!ehlo_output.empty()) {
-        ehlo_character_index = ehlo_output.find(DELIMITER);
-        ServerAuthOptions *line_options = ParseAuthenticationOptions(ehlo_output.substr(0, ehlo_character_index));
+    const std::string ehlo_output { pEhloOutput };
+    size_t line_start { 0 };
+    while (line_start < ehlo_output.length()) {
+        const size_t line_end = (std::min)(ehlo_output.find(DELIMITER, line_start), ehlo_output.length());
+        ServerAuthOptions *line_options = ParseAuthenticationOptions(ehlo_output.substr(line_start, line_end - line_start));
         if (retVal == nullptr) {
             retVal = line_options;
         } else if (line_options != nullptr) {
@@ -1271,7 +1271,7 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
             retVal->XOAuth |= line_options->XOAuth;
             delete line_options;
         }
-        ehlo_output.erase(0, ehlo_character_index == std::string::npos ? ehlo_character_index : ehlo_character_index + DELIMITER.length());
+        line_start = line_end + DELIMITER.length();
     }
     return retVal;
 }
-- 
2.43.0


From 763aaa6373cc51d3519dee3ca930c1ad3e0bbe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 39/43] fix: resume the search of the end of a reply where it
 was left

---
 src/smtpclientbase.cpp | 17 +++++++++--------
 src/smtpclientbase.h   |  6 ++++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index b9c3e13..f289ee9 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -731,6 +731,7 @@ int SMTPClientBase::getRawCommandReply() {
     const auto deadline = getCommandDeadline();
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     std::string fullResponse;
+    size_t line_start { 0 };
     bool complete = false;
     while (!complete && fullResponse.length() < MAX_SERVERRESPONSE_LENGTH) {
         const int bytes_received = receiveData(outbuf, SERVERRESPONSE_BUFFER_LENGTH, deadline);
@@ -739,9 +740,10 @@ int SMTPClientBase::getRawCommandReply() {
         }
         // A null character would hide the remaining part of the reply
         std::replace(outbuf, outbuf + bytes_received, '\0', '?');
+        const size_t previous_length = fullResponse.length();
         fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
         // What would follow a complete reply was sent by the server without being asked
-        const size_t reply_length = getServerReplyLength(fullResponse);
+        const size_t reply_length = getServerReplyLength(fullResponse, previous_length, &line_start);
         complete = reply_length > 0;
         fullResponse.resize(complete ? reply_length : fullResponse.length());
     }
@@ -771,18 +773,17 @@ int SMTPClientBase::receiveData(char *pBuffer, size_t pLength, std::chrono::stea
     return -1;
 }
 
-size_t SMTPClientBase::getServerReplyLength(const std::string &pReply) {
+size_t SMTPClientBase::getServerReplyLength(const std::string &pReply, size_t pPreviousLength, size_t *pLineStart) {
     // All the lines of a reply begin with the same code, only the last one
     // has no hyphen behind it.
     const size_t CODE_LENGTH = 3;
-    size_t line_start { 0 };
-    size_t line_end { 0 };
-    while ((line_end = pReply.find('\n', line_start)) != std::string::npos) {
-        if (pReply.compare(line_start, CODE_LENGTH, pReply, 0, CODE_LENGTH) == 0
-            && pReply.compare(line_start + (std::min)(CODE_LENGTH, line_end - line_start), 1, "-") != 0) {
+    size_t line_end { pPreviousLength };
+    while ((line_end = pReply.find('\n', line_end)) != std::string::npos) {
+        if (pReply.compare(*pLineStart, CODE_LENGTH, pReply, 0, CODE_LENGTH) == 0
+            && pReply.compare(*pLineStart + (std::min)(CODE_LENGTH, line_end - *pLineStart), 1, "-") != 0) {
             return line_end + 1;
         }
-        line_start = line_end + 1;
+        *pLineStart = ++line_end;
     }
     return 0;
 }
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 6103167..51cb727 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -191,8 +191,10 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int getRawCommandReply();
     // Return the number of bytes received, 0 if the connection is closed and a negative value for an error or a timeout
     virtual int receiveData(char *pBuffer, size_t pLength, std::chrono::steady_clock::time_point pDeadline);
-    // Return the length of the reply, up to the end of its last line, or 0 if the reply is not complete
-    static size_t getServerReplyLength(const std::string &pReply);
+    // Return the length of the reply, up to the end of its last line, or 0 if the reply is not complete.
+    // The first pPreviousLength characters contain no end of the reply. pLineStart is the start of the first line
+    // that was not complete and is moved along.
+    static size_t getServerReplyLength(const std::string &pReply, size_t pPreviousLength, size_t *pLineStart);
     virtual int sendCommand(const char *pCommand, int pErrorCode) = 0;
     virtual int sendCommandWithFeedback(const char *pCommand, int pErrorCode, int pTimeoutCode) = 0;
     virtual int getServerReply() = 0;
-- 
2.43.0


From 6827d6562e9921e22f9dd3442fea143bf72b5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 40/43] fix: choose the boundary in one pass over the body

---
 src/smtpclientbase.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f289ee9..f7367c6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -5,6 +5,7 @@
 #include <cstddef>
 #include <cstring>
 #include <limits>
+#include <set>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -1159,11 +1160,25 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
 std::string SMTPClientBase::getBoundary(const Message &pMsg) {
     // The boundary must not appear in the text of the mail
     const std::string body { pMsg.getBody() };
-    std::string retval { "sep" };
-    for (unsigned int i = 1; body.find("--" + retval) != std::string::npos; i++) {
-        retval = "sep" + std::to_string(i);
+    const std::string DELIMITER { "--sep" };
+    std::set<std::string> used;
+    size_t index { 0 };
+    while ((index = body.find(DELIMITER, index)) != std::string::npos) {
+        index += DELIMITER.length();
+        // A delimiter line also hides those whose number begins with the same digits
+        const size_t MAX_DIGITS = 10;
+        for (size_t digits = 0; digits <= MAX_DIGITS; digits++) {
+            used.insert(body.substr(index, digits));
+            if (index + digits >= body.length() || body[index + digits] < '0' || body[index + digits] > '9') {
+                break;
+            }
+        }
     }
-    return retval;
+    std::string suffix;
+    for (unsigned int i = 1; used.find(suffix) != used.end(); i++) {
+        suffix = std::to_string(i);
+    }
+    return "sep" + suffix;
 }
 
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
-- 
2.43.0


From 0dce709c22dcc7387b4582618cb08ebe81f3132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 41/43] fix: append to the communication log without reading it
 again

---
 src/smtpclientbase.cpp | 55 ++++++++++++++++++++++--------------------
 src/smtpclientbase.h   |  1 +
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f7367c6..090a935 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -85,7 +85,8 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mPort(other.mPort),
       mBatchMode(other.mBatchMode),
       mCommunicationLog(other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr),
-      mCommunicationLogSize(other.mCommunicationLogSize),
+      mCommunicationLogSize(other.mCommunicationLogLength + 1),
+      mCommunicationLogLength(other.mCommunicationLogLength),
       mLastServerResponse(other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr),
       mCommandTimeOut(other.mCommandTimeOut),
       mLastSocketErrNo(other.mLastSocketErrNo),
@@ -135,7 +136,8 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
             strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
             mCommunicationLog[communication_log_len] = '\0';
         }
-        mCommunicationLogSize = other.mCommunicationLogSize;
+        mCommunicationLogSize = other.mCommunicationLogLength + 1;
+        mCommunicationLogLength = other.mCommunicationLogLength;
         // mLastServerResponse
         delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
@@ -167,6 +169,7 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
       mBatchMode(other.mBatchMode),
       mCommunicationLog(other.mCommunicationLog),
       mCommunicationLogSize(other.mCommunicationLogSize),
+      mCommunicationLogLength(other.mCommunicationLogLength),
       mLastServerResponse(other.mLastServerResponse),
       mCommandTimeOut(other.mCommandTimeOut),
       mLastSocketErrNo(other.mLastSocketErrNo),
@@ -181,6 +184,7 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
     other.mBatchMode = false;
     other.mCommunicationLog = nullptr;
     other.mCommunicationLogSize = 0;
+    other.mCommunicationLogLength = 0;
     other.mLastServerResponse = nullptr;
     other.mCommandTimeOut = 0;
     other.mLastSocketErrNo = 0;
@@ -208,6 +212,7 @@ SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
         mBatchMode = other.mBatchMode;
         mCommunicationLog = other.mCommunicationLog;
         mCommunicationLogSize = other.mCommunicationLogSize;
+        mCommunicationLogLength = other.mCommunicationLogLength;
         mLastServerResponse = other.mLastServerResponse;
         mCommandTimeOut = other.mCommandTimeOut;
         mLastSocketErrNo = other.mLastSocketErrNo;
@@ -224,6 +229,7 @@ SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
         other.mBatchMode = false;
         other.mCommunicationLog = nullptr;
         other.mCommunicationLogSize = 0;
+        other.mCommunicationLogLength = 0;
         other.mLastServerResponse = nullptr;
         other.mCommandTimeOut = 0;
         other.mLastSocketErrNo = 0;
@@ -382,6 +388,7 @@ int SMTPClientBase::initializeSession() {
     mCommunicationLog = new char[INITIAL_COMM_LOG_LENGTH];
     mCommunicationLogSize = INITIAL_COMM_LOG_LENGTH;
     mCommunicationLog[0] = '\0';
+    mCommunicationLogLength = 0;
 
 #ifdef _WIN32
     return initializeSessionWinSock();
@@ -1125,36 +1132,32 @@ std::string SMTPClientBase::encodeMailData(const std::string &pData) {
 }
 
 void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPrefix) {
-    std::string item { pItem };
+    const std::string CRLF { "\r\n" };
+    const std::string ESCAPED_CRLF { "\\r\\n" };
+    const std::string text { pItem };
+    std::string item { "\n"s + pPrefix + ": " };
+    size_t start_pos = 0;
     if (strcmp(pPrefix, "c") == 0) {
-        /* Replace the \ by \\ */
-        const std::string FROM { "\r\n" };
-        const std::string TO { "\\r\\n" };
-        size_t start_pos = 0;
-        while ((start_pos = item.find(FROM, start_pos)) != std::string::npos) {
-            item.replace(start_pos, FROM.length(), TO);
-            start_pos += TO.length();  // Handles case where 'to' is a substring of 'from'
+        size_t end_pos = 0;
+        while ((end_pos = text.find(CRLF, start_pos)) != std::string::npos) {
+            item.append(text, start_pos, end_pos - start_pos);
+            item += ESCAPED_CRLF;
+            start_pos = end_pos + CRLF.length();
         }
     }
-    const std::string ENDOFLINE { "\n" };
-    const std::string SEPARATOR { ": " };
-    size_t currentLogSize = strlen(mCommunicationLog);
-    size_t appendSize = ENDOFLINE.length() + strlen(pPrefix) + SEPARATOR.length() + item.length() + 1;
-    if (mCommunicationLogSize - currentLogSize <= appendSize) {
-        size_t newSize = currentLogSize + appendSize + INITIAL_COMM_LOG_LENGTH;
+    item.append(text, start_pos, std::string::npos);
+    const size_t newLength = mCommunicationLogLength + item.length();
+    if (mCommunicationLogSize <= newLength) {
+        // The size is doubled so that the log is not copied for each new item
+        const size_t newSize = (std::max)(newLength + INITIAL_COMM_LOG_LENGTH, mCommunicationLogSize * 2);
         char *newBuffer = new char[newSize];
-        std::strncpy(newBuffer, mCommunicationLog, currentLogSize);
-        newBuffer[currentLogSize] = '\0';
-        mCommunicationLogSize = newSize;
-        char *tmpBuffer = mCommunicationLog;
+        memcpy(newBuffer, mCommunicationLog, mCommunicationLogLength);
+        delete [] mCommunicationLog;
         mCommunicationLog = newBuffer;
-        delete [] tmpBuffer;
+        mCommunicationLogSize = newSize;
     }
-    strncat(mCommunicationLog, ENDOFLINE.c_str(), mCommunicationLogSize-1);
-    strncat(mCommunicationLog, pPrefix, mCommunicationLogSize-1);
-    strncat(mCommunicationLog, SEPARATOR.c_str(), mCommunicationLogSize-1);
-    strncat(mCommunicationLog, item.c_str(), mCommunicationLogSize-1);
-    mCommunicationLog[mCommunicationLogSize-1] = '\0';
+    memcpy(mCommunicationLog + mCommunicationLogLength, item.c_str(), item.length() + 1);
+    mCommunicationLogLength = newLength;
 }
 
 std::string SMTPClientBase::getBoundary(const Message &pMsg) {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 51cb727..5b2df61 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -228,6 +228,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     bool mBatchMode;
     char *mCommunicationLog;
     size_t mCommunicationLogSize = 0;
+    size_t mCommunicationLogLength = 0;
     char *mLastServerResponse;
     unsigned int mCommandTimeOut;
     int mLastSocketErrNo;
-- 
2.43.0


From 95aa4bcb73efefb8587923605a0077c6b9b68f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 42/43] fix: take the options of an AUTH line without moving
 the rest of it

---
 src/smtpclientbase.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 090a935..70962b5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1240,12 +1240,12 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
         // Find each options
         std::vector<std::string> options;
         size_t line_character_index { 0 };
-        while ((line_character_index = line.find(' ')) != std::string::npos) {
-            std::string option { line.substr(0, line_character_index)};
-            options.push_back(option);
-            line.erase(0, line_character_index + 1);
+        size_t option_start { 0 };
+        while ((line_character_index = line.find(' ', option_start)) != std::string::npos) {
+            options.push_back(line.substr(option_start, line_character_index - option_start));
+            option_start = line_character_index + 1;
         }
-        options.push_back(line);
+        options.push_back(line.substr(option_start));
         // Try to match the string options with the ServerAuthOptions struct attributes
         for_each(options.begin(), options.end(), [&retval](const std::string &option) {
             if (option == "PLAIN") {
-- 
2.43.0


From 8674226fa827a65d242b807bf1ab09a4d19d0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 43/43] fix: send credentials of more than 48 KB in one line

---
 src/smtpclientbase.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 70962b5..1e62ca2 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -868,6 +868,13 @@ int SMTPClientBase::authenticateClient() {
     return CLIENT_AUTHENTICATE_NONEED;
 }
 
+// The encoder breaks long lines, what would follow the break would be another command for the server
+static std::string encodeCredential(const unsigned char *pBytes, size_t pLength) {
+    std::string retval { Base64::Encode(pBytes, pLength) };
+    retval.erase(std::remove_if(retval.begin(), retval.end(), [](char c) { return c == '\r' || c == '\n'; }), retval.end());
+    return retval;
+}
+
 int SMTPClientBase::authenticateWithMethodPlain() {
     addCommunicationLogItem("AUTH PLAIN ***************\r\n");
     std::stringstream ss_credentials;
@@ -876,7 +883,7 @@ int SMTPClientBase::authenticateWithMethodPlain() {
     std::string str_credentials = ss_credentials.str();
     std::stringstream ss;
     ss << "AUTH PLAIN "
-        << Base64::Encode(reinterpret_cast<const unsigned char*>(str_credentials.c_str()),
+        << encodeCredential(reinterpret_cast<const unsigned char*>(str_credentials.c_str()),
                 strlen(mCredential->getUsername()) + strlen(mCredential->getPassword()) + 2)  // + 2 for the two null characters
         << "\r\n";
     return (*this.*sendCommandWithFeedbackPtr)(ss.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
@@ -891,7 +898,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
         return CLIENT_AUTHENTICATE_ERROR;
     }
 
-    std::string encoded_username { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
+    std::string encoded_username { encodeCredential(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
             strlen(mCredential->getUsername())) };
     std::stringstream ss_username;
     ss_username << encoded_username << "\r\n";
@@ -901,7 +908,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
     if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
         return CLIENT_AUTHENTICATE_ERROR;
     }
-    std::string encoded_password { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
+    std::string encoded_password { encodeCredential(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
             strlen(mCredential->getPassword())) };
     std::stringstream ss_password;
     ss_password << encoded_password << "\r\n";
@@ -915,7 +922,7 @@ int SMTPClientBase::authenticatedWithMethodXOauth2() {
 
     auto rawCredentials = encodedCredentials.str();
 
-    std::string credentials = Base64::Encode(
+    std::string credentials = encodeCredential(
         reinterpret_cast<const unsigned char*>(rawCredentials.c_str()), rawCredentials.length());
 
     std::stringstream cmd{};
-- 
2.43.0

