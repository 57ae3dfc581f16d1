// Documented tables of the library: attachment types by extension, and result texts by code.
#pragma once
#include <utility>
#include <string>
#include <vector>

static const std::vector<std::pair<std::string, std::string>> kMime{
    {"png", "image/png"},
    {"jpeg", "image/jpeg"},
    {"jpg", "image/jpeg"},
    {"jpe", "image/jpeg"},
    {"gif", "image/gif"},
    {"tiff", "image/tiff"},
    {"tif", "image/tiff"},
    {"ico", "image/x-icon"},
    {"xml", "application/xml"},
    {"xsl", "application/xml"},
    {"xhtml", "application/xhtml+xml"},
    {"xht", "application/xhtml+xml"},
    {"pdf", "application/pdf"},
    {"js", "application/javascript"},
    {"css", "text/css"},
    {"csv", "text/csv"},
    {"html", "text/html"},
    {"htm", "text/html"},
    {"txt", "text/plain"},
    {"text", "text/plain"},
    {"conf", "text/plain"},
    {"def", "text/plain"},
    {"list", "text/plain"},
    {"log", "text/plain"},
    {"in", "text/plain"},
    {"mpeg", "video/mpeg"},
    {"mpg", "video/mpeg"},
    {"mpe", "video/mpeg"},
    {"m1v", "video/mpeg"},
    {"m2v", "video/mpeg"},
    {"mp4", "video/mp4"},
    {"mp4v", "video/mp4"},
    {"mpg4", "video/mp4"},
    {"qt", "video/quicktime"},
    {"mov", "video/quicktime"},
    {"wmv", "video/x-ms-wmv"},
    {"avi", "video/x-msvideo"},
    {"flv", "video/x-flv"},
    {"webm", "video/webm"},
    {"wav", "audio/wav"},
    {"mp3", "audio/mpeg"},
    {"oga", "audio/ogg"},
    {"opus", "audio/opus"},
    {"aac", "audio/aac"},
    {"zip", "application/zip"},
    {"rar", "application/x-rar-compressed"},
    {"odt", "application/vnd.oasis.opendocument.text"},
    {"ods", "application/vnd.oasis.opendocument.spreadsheet"},
    {"odp", "application/vnd.oasis.opendocument.presentation"},
    {"odg", "application/vnd.oasis.opendocument.graphics"},
    {"xls", "application/vnd.ms-excel"},
    {"xlm", "application/vnd.ms-excel"},
    {"xla", "application/vnd.ms-excel"},
    {"xlc", "application/vnd.ms-excel"},
    {"xlt", "application/vnd.ms-excel"},
    {"xlw", "application/vnd.ms-excel"},
    {"xlam", "application/vnd.ms-excel.addin.macroenabled.12"},
    {"xlsb", "application/vnd.ms-excel.sheet.binary.macroenabled.12"},
    {"xlsm", "application/vnd.ms-excel.sheet.macroenabled.12"},
    {"xltm", "application/vnd.ms-excel.template.macroenabled.12"},
    {"xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"},
    {"xltx", "application/vnd.openxmlformats-officedocument.spreadsheetml.template"},
    {"ppt", "application/vnd.ms-powerpoint"},
    {"pps", "application/vnd.ms-powerpoint"},
    {"pot", "application/vnd.ms-powerpoint"},
    {"ppam", "application/vnd.ms-powerpoint.addin.macroenabled.12"},
    {"pptm", "application/vnd.ms-powerpoint.presentation.macroenabled.12"},
    {"sldm", "application/vnd.ms-powerpoint.slide.macroenabled.12"},
    {"ppsm", "application/vnd.ms-powerpoint.slideshow.macroenabled.12"},
    {"potm", "application/vnd.ms-powerpoint.template.macroenabled.12"},
    {"pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation"},
    {"sldx", "application/vnd.openxmlformats-officedocument.presentationml.slide"},
    {"ppsx", "application/vnd.openxmlformats-officedocument.presentationml.slideshow"},
    {"potx", "application/vnd.openxmlformats-officedocument.presentationml.template"},
    {"doc", "application/msword"},
    {"dot", "application/msword"},
    {"docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"},
    {"dotx", "application/vnd.openxmlformats-officedocument.wordprocessingml.template"},
    {"xul", "application/vnd.mozilla.xul+xml"},
};

static const std::vector<std::pair<int, std::string>> kMessages{
    {-1, "Unable to create the socket"},
    {-2, "Unable to connect to the socket"},
    {-3, "The connection attempt has timed out"},
    {-4, "Unable to start WSA (Winsock)"},
    {-5, "Unable to get address info (Winsock)"},
    {-6, "Unable to get host by name"},
    {-7, "Unable to get socket file descriptor status flags"},
    {-8, "Unable to set socket file descriptor status flags"},
    {-9, "Unable to get socket options"},
    {-10, "Error in delayed connection"},
    {-20, "Unable to send the EHLO command"},
    {-21, "The EHLO command has timed out"},
    {-30, "Unable to send the STARTTLS command"},
    {-31, "The STARTTLS command has timed out"},
    {-51, "Unable to initialize the SSL Context"},
    {-52, "Unable to create the SSL BIO"},
    {-53, "Unable to open the Windows Certificate System Store"},
    {-54, "Unable to open the specifies that the default locations from which CA certificates are loaded"},
    {-55, "Unable to connect SSL BIO"},
    {-56, "Unable to handshake with SSL BIO"},
    {-57, "Unable to get peer certificate"},
    {-58, "Unable to verify the result of chain verification"},
    {-59, "Unable to EHLO the server via the secure channel"},
    {-60, "The EHLO command via the secure channel timed out"},
    {-81, "Unable to authenticate with the credentials provided"},
    {-82, "The authentication to the server has timed out"},
    {-83, "The authentication is not needed on the server"},
    {-84, "The authentication method selected is not supported by the server"},
    {-85, "The MAIL FROM command return an error"},
    {-86, "The MAIL FROM command timed out"},
    {-87, "The RCPT TO command return an error"},
    {-88, "The RCPT TO command timed out"},
    {-89, "The DATA command return an error"},
    {-90, "The DATA command timed out"},
    {-91, "The From header command return an error"},
    {-92, "The To and CC header command return an error"},
    {-93, "The Subject header command return an error"},
    {-94, "The Content type header command return an error"},
    {-95, "The Body part return an error"},
    {-96, "The Body command return an error"},
    {-97, "The End data command return an error"},
    {-98, "The End data command timed out"},
    {-99, "The QUIT command return an error"},
    {530, "Authentication required"},
    {534, "Authentication mechanism is too weak"},
    {535, "Authentication credentials invalid"},
    {538, "Encryption required for requested authentication mechanism"},
    {334, "Token based authentication failed. See https://support.google.com/mail/thread/204884242/334-authentication-unsuccessful?hl=en"},
};
static const char *const kUnknownMessage = "No message correspond to this error code";
