From 5fbe111531bb63bea5d06667bb282be4651f9c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 01/63] fix: Base64::encode reads out of bounds for inputs
 shorter than two bytes

---
 src/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 6ff83ae..3aa375a 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -15,7 +15,7 @@ namespace fr
         size_t a;
 
         //Do as many sets of 3 bytes as we can
-        for(a = 0; a < input.size() - 2; a += 3)
+        for(a = 0; a + 2 < input.size(); a += 3)
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store the first 6 bits of the first byte
             out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store the last 2 bits of the first byte combined with the first 4 bits of the second byte
-- 
2.43.0


From 83ff7c0fa5f2f3e3e0202199efa43fc0de82d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 02/63] fix: Http::url_decode mangles lower-case and malformed
 escape sequences

---
 src/Http.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..e665c83 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -165,19 +165,23 @@ namespace fr
 
     std::string Http::url_decode(const std::string &str)
     {
+        auto hex_value = [](char c) -> int
+        {
+            if(c >= '0' && c <= '9') return c - '0';
+            if(c >= 'A' && c <= 'F') return c - 'A' + 10;
+            if(c >= 'a' && c <= 'f') return c - 'a' + 10;
+            return -1;
+        };
+
         std::string result;
         for(size_t a = 0; a < str.size(); a++)
         {
-            if(str[a] == '%' && a < str.size() - 1)
+            //Anything which isn't a full escape sequence is copied through as is
+            if(str[a] == '%' && str.size() - a > 2 && hex_value(str[a + 1]) >= 0 && hex_value(str[a + 2]) >= 0)
             {
-                int ch1 = str[++a] - 48;
-                int ch2 = str[++a] - 48;
-                if(ch1 > 9) ch1 -= 7;
-                if(ch2 > 9) ch2 -= 7;
-                uint8_t ret = 0;
-                ret |= ch1 << 4;
-                ret |= ch2;
-                result.push_back(ret);
+                int ch1 = hex_value(str[++a]);
+                int ch2 = hex_value(str[++a]);
+                result.push_back(static_cast<char>((ch1 << 4) | ch2));
             }
             else if(str[a] == '+')
             {
-- 
2.43.0


From 1edc4afecbcc9da8f39ec97674162e68ef2ca2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 03/63] fix: an argument without a value swallows the argument
 following it

---
 src/Http.cpp | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index e665c83..32b4e59 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -205,31 +205,19 @@ namespace fr
         if(str.front() == '?')
             read_index++;
 
-        while(true)
-        {
-            unsigned long equal_pos;
-            equal_pos = str.find('=', read_index);
-            if(equal_pos != std::string::npos)
-            {
-                unsigned long and_pos;
-                and_pos = str.find('&', read_index);
-                if(and_pos >= str.size())
-                {
-                    size_t str_size = str.size();
-                    while(str[str_size - 1] == '\n' || str[str_size - 1] == '\r')
-                        --str_size;
-                    list.emplace_back(str.substr(read_index, equal_pos - read_index), str.substr(equal_pos + 1, str_size - equal_pos - 1));
-                    break;
-                }
+        size_t str_size = str.size();
+        while(str_size > read_index && (str[str_size - 1] == '\n' || str[str_size - 1] == '\r'))
+            --str_size;
 
+        while(read_index < str_size)
+        {
+            size_t and_pos = std::min(str.find('&', read_index), str_size);
+            size_t equal_pos = std::min(str.find('=', read_index), and_pos);
+            if(equal_pos != and_pos)
                 list.emplace_back(str.substr(read_index, equal_pos - read_index), str.substr(equal_pos + 1, and_pos - equal_pos - 1));
-                    read_index = and_pos + 1;
-
-            }
-            else
-            {
-                break;
-            }
+            else if(and_pos != read_index) //No value provided
+                list.emplace_back(str.substr(read_index, and_pos - read_index), "");
+            read_index = and_pos + 1;
         }
 
         return list;
-- 
2.43.0


From 45d65c46dd24622dfcfe76aceed3a1e09e226767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 04/63] fix: a request URI containing 'HTTP' is cut short

---
 src/HttpRequest.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..3e4eadf 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -200,16 +200,15 @@ namespace fr
     void HttpRequest::parse_header_uri(const std::string &str)
     {
         auto uri_begin = str.find('/');
-        auto uri_end = str.find("HTTP");
-        if(uri_begin == std::string::npos || uri_end == std::string::npos)
+        auto uri_end = str.rfind(" HTTP");
+        if(uri_begin == std::string::npos || uri_end == std::string::npos || uri_begin > uri_end)
         {
             throw std::invalid_argument("No URI found in: " + str);
         }
-        --uri_end;
 
         //Parse GET variables
         auto get_begin = str.find('?');
-        if(get_begin != std::string::npos)
+        if(get_begin > uri_begin && get_begin < uri_end)
         {
             auto get_vars = parse_argument_list(str.substr(get_begin, uri_end - get_begin));
             for(auto &c : get_vars)
-- 
2.43.0


From 3a6206a57a02ecf1b6e9e37c8299ea212a3b9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 05/63] fix: methods which merely begin with a known one are
 parsed as that one

---
 src/HttpRequest.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 3e4eadf..16be5fb 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -192,7 +192,10 @@ namespace fr
         auto type_end = str.find(' ');
         if(type_end != std::string::npos)
         {
-            return string_to_request_type(str.substr(0, type_end));
+            //Only an exact match will do here, string_to_request_type() also accepts a method followed by other text
+            auto type = string_to_request_type(str.substr(0, type_end));
+            if(str.compare(0, type_end, request_type_to_string(type)) == 0)
+                return type;
         }
         return Http::RequestType::Unknown;
     }
-- 
2.43.0


From 5aec8e72af58514b15281dcaa8bc1f2469552d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 06/63] fix: text sorting before a method name is reported as a
 partial method

---
 include/frnetlib/Http.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index a25c294..7bf0566 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -341,10 +341,8 @@ namespace fr
                 int cmp_ret = str.compare(0, type_string.size(), type_string);
                 if(cmp_ret == 0)
                     return static_cast<RequestType>(a);
-                if(str.size() < type_string.size() && cmp_ret < 0)
+                if(str.size() < type_string.size() && type_string.compare(0, str.size(), str) == 0)
                     type = Http::RequestType::Partial;
-                if(type != Http::RequestType::Partial && str.size() < type_string.size() && cmp_ret > 0)
-                    type = Http::RequestType::Unknown;
             }
 
             return type;
-- 
2.43.0


From 357bbf8f6c9f7adbb44dbd799ba6db355963b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 07/63] fix: constructed requests lack or duplicate their
 Content-Length

---
 src/HttpRequest.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 16be5fb..f55a7c6 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -122,19 +122,12 @@ namespace fr
         static_assert((uint32_t)RequestVersion::VersionCount == 3, "Update me");
         request += (version == RequestVersion::V1) ? " HTTP/1.0\r\n" : " HTTP/1.1\r\n";
 
-        //Add the headers to the request
-        for(const auto &header : header_data)
-        {
-            std::string data = header.first + ": " + header.second + "\r\n";
-            request += data;
-        }
-
         //Generate post line
         std::string post_string;
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
@@ -142,12 +135,22 @@ namespace fr
             post_string += "\r\n";
         }
 
+        //Add the headers to the request. The length of what follows them is filled in below.
+        const bool has_payload = !body.empty() || !post_string.empty();
+        for(const auto &header : header_data)
+        {
+            if(has_payload && header.first == "content-length")
+                continue;
+            std::string data = header.first + ": " + header.second + "\r\n";
+            request += data;
+        }
+
         //Add in required headers if they're missing
         if(header_data.find("connection") == header_data.end())
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(has_payload)
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 2a0c86654652f6c59eb4b4f83367621a3137a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 08/63] fix: constructed responses keep a stale Content-Length
 after their body changes

---
 src/HttpResponse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..7e2b2cd 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -95,9 +95,11 @@ namespace fr
         static_assert((uint32_t)RequestVersion::VersionCount == 3, "Update me");
         std::string response = ((version == RequestVersion::V1) ? "HTTP/1.0 " : "HTTP/1.1 ") + std::to_string((uint32_t)status) + " \r\n";
 
-        //Add the headers to the response
+        //Add the headers to the response. The length of the body is filled in below.
         for(const auto &header : header_data)
         {
+            if(!body.empty() && header.first == "content-length")
+                continue;
             std::string data = header.first + ": " + header.second + "\r\n";
             response += data;
         }
@@ -107,7 +109,7 @@ namespace fr
             response += "connection: keep-alive\r\n";
         if(header_data.find("content-type") == header_data.end())
             response += "content-type: text/html\r\n";
-        if(header_data.find("content-length") == header_data.end() && !body.empty())
+        if(!body.empty())
             response += "content-length: " + std::to_string(body.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 25c762edd7684d9e4922712d37a7258bab51c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 09/63] fix: a header ended by bare newlines is parsed up to
 the first CRLF pair in the body

---
 src/HttpRequest.cpp  | 5 +++--
 src/HttpResponse.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index f55a7c6..a01b9d8 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -28,9 +28,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto short_header_end = body.find("\n\n");
+            if(short_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = short_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 7e2b2cd..b1ff342 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -21,9 +21,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto short_header_end = body.find("\n\n");
+            if(short_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = short_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
-- 
2.43.0


From 3b1603df3a9027d509bcd2f6fa9e0d615a3d8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 10/63] fix: whether a header of the maximum size is accepted
 depends on how it arrives

---
 src/HttpRequest.cpp  | 4 ++--
 src/HttpResponse.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index a01b9d8..d256fca 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -36,8 +36,8 @@ namespace fr
             }
             header_ended = header_end != std::string::npos;
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. Up to 3 bytes may be part of a header end that's yet to be completed.
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index b1ff342..6640c46 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -29,8 +29,8 @@ namespace fr
             }
             header_ended = header_end != std::string::npos;
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. Up to 3 bytes may be part of a header end that's yet to be completed.
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
-- 
2.43.0


From dbfa74957164f9b3bb492b6aea1bb260c8c0ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 11/63] fix: negative and partly numeric lengths and statuses
 are accepted

---
 include/frnetlib/Http.h | 11 +++++++++++
 src/Http.cpp            | 14 ++++++++++++++
 src/HttpRequest.cpp     |  2 +-
 src/HttpResponse.cpp    |  8 ++++++--
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index 7bf0566..dfb6265 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -391,6 +391,17 @@ namespace fr
          */
         static std::vector<std::pair<std::string, std::string>> parse_argument_list(const std::string &str);
 
+        /*!
+         * Parses a non-negative number, which must make up the whole
+         * string, bar any whitespace surrounding it.
+         *
+         * @throws An std::invalid_argument/std::out_of_range if it's not a number, or doesn't fit.
+         * @param str The string to parse
+         * @param base The base of the number (10, or 16)
+         * @return The parsed number
+         */
+        static uint64_t parse_number(const std::string &str, int base = 10);
+
         /*!
          * Parses a header line in a HTTP request/response
          *
diff --git a/src/Http.cpp b/src/Http.cpp
index 32b4e59..900b3aa 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -223,6 +223,20 @@ namespace fr
         return list;
     }
 
+    uint64_t Http::parse_number(const std::string &str, int base)
+    {
+        const char *digits = base == 16 ? "0123456789abcdefABCDEF" : "0123456789";
+        auto begin = str.find_first_not_of(" \t\r");
+        auto last = str.find_last_not_of(" \t\r");
+        if(begin == std::string::npos)
+            throw std::invalid_argument("No number provided");
+
+        std::string number = str.substr(begin, last - begin + 1);
+        if(number.find_first_not_of(digits) != std::string::npos)
+            throw std::invalid_argument("Not a number: " + number);
+        return std::stoull(number, nullptr, base);
+    }
+
     void Http::parse_header_line(const std::string &str)
     {
         size_t colon_pos = str.find(':');
diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index d256fca..f8d4804 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -95,7 +95,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = (size_t)std::stoull(length_header_iter->second);
+                content_length = (size_t)parse_number(length_header_iter->second);
         }
         catch(const std::exception &e)
         {
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 6640c46..c315139 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <iostream>
+#include <limits>
 #include "frnetlib/HttpResponse.h"
 
 namespace fr
@@ -136,7 +137,10 @@ namespace fr
             if(status_begin == std::string::npos)
                 return false;
             auto end_pos = header_lines[0].find(' ', status_begin + 1);
-            status = (RequestStatus)std::stoi(header_lines[0].substr(status_begin, end_pos - status_begin));
+            auto status_code = parse_number(header_lines[0].substr(status_begin, end_pos - status_begin));
+            if(status_code > (uint64_t)std::numeric_limits<int>::max())
+                return false;
+            status = (RequestStatus)status_code;
 
             //Get HTTP version
             static_assert((uint32_t)RequestVersion::VersionCount == 3, "Update me");
@@ -152,7 +156,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = std::stoull(length_header_iter->second);
+                content_length = (size_t)parse_number(length_header_iter->second);
         }
         catch(const std::exception &e)
         {
-- 
2.43.0


From 46012e6595851ae9ab6e1e83152e7b453253f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 12/63] fix: data following a request becomes part of its body

---
 src/HttpRequest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index f8d4804..2b04600 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -54,6 +54,10 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
+        //Cut off any data if it exceeds content length, provided that a content length is specified
+        if(body.size() > content_length && header_data.find("content-length") != header_data.end())
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
         {
-- 
2.43.0


From 8be55e97b70ac89e6812098126d80c42581cf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 13/63] fix: malformed or oversized chunk lengths throw, and
 trailing data ends up in chunked bodies

---
 include/frnetlib/HttpResponse.h |  7 +++
 src/HttpResponse.cpp            | 90 +++++++++++++++++++++++----------
 2 files changed, 70 insertions(+), 27 deletions(-)

diff --git a/include/frnetlib/HttpResponse.h b/include/frnetlib/HttpResponse.h
index f91c802..4b0cce3 100644
--- a/include/frnetlib/HttpResponse.h
+++ b/include/frnetlib/HttpResponse.h
@@ -40,6 +40,13 @@ namespace fr
         std::string construct(const std::string &host) const override;
 
     private:
+        /*!
+         * Decodes the chunks received so far, in place.
+         *
+         * @return Same as parse().
+         */
+        fr::Socket::Status parse_chunks();
+
         /*!
          * Parses the request header.
          *
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index c315139..cf4dcb0 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -2,6 +2,7 @@
 // Created by fred on 10/12/16.
 //
 
+#include <algorithm>
 #include <iostream>
 #include <limits>
 #include "frnetlib/HttpResponse.h"
@@ -48,46 +49,81 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
+        //Check if chunked encoding
+        if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
+        {
+            return parse_chunks();
+        }
+
+        //Cut off any data if it exceeds content length, provided that a content length is specified
+        if(body.size() > content_length && header_data.find("content-length") != header_data.end())
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
             return fr::Socket::Status::HttpBodyTooBig;
 
-        //Check if chunked encoding
-        if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
+        if(body.size() < content_length)
+            return fr::Socket::Status::NotEnoughData;
+        return fr::Socket::Status::Success;
+
+    }
+
+    fr::Socket::Status HttpResponse::parse_chunks()
+    {
+        //Everything before 'chunk_offset' has been decoded already, what's after 'read_offset' is yet to be.
+        size_t read_offset = chunk_offset;
+        size_t length_end;
+        while((length_end = body.find("\r\n", read_offset)) != std::string::npos)
         {
-            //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
-            while(chunk_len > 0 && chunk_offset < body.size())
+            if(length_end - read_offset > MAX_HTTP_HEADER_SIZE)
+                return fr::Socket::Status::HttpHeaderTooBig;
+
+            //Find the length of the chunk, it's in hex! It may be followed by extensions, which aren't of interest.
+            uint64_t chunk_len = 0;
+            try
+            {
+                std::string hex_length = body.substr(read_offset, length_end - read_offset);
+                chunk_len = parse_number(hex_length.substr(0, hex_length.find(';')), 16);
+            }
+            catch(const std::exception &e)
             {
-                auto length_end = body.find("\r\n", chunk_offset);
-                if(length_end == std::string::npos)
-                    return fr::Socket::Status::NotEnoughData;
-                std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
-
-                //If the current chunk hasn't fully been received yet then ask for more data
-                if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
-                    return fr::Socket::Status::NotEnoughData;
-
-                //Now we have the full chunk, erase the padding \r\n
-                body.erase(chunk_offset + hex_length.size() + chunk_len + 2, 2); //delete \r\n after chunk
-                body.erase(chunk_offset, hex_length.size() + 2); //delete both hex length and following \r\n
-                chunk_offset += chunk_len;
+                return fr::Socket::Status::ParseError;
             }
 
-            //If this chunk is 0, we have everything!
+            //If this chunk is 0 then we have everything, once the blank line ending the message has been received
             if(chunk_len == 0)
+            {
+                auto message_end = body.find("\r\n\r\n", length_end);
+                auto trailer_length = std::min(message_end, body.size() - 3) - length_end;
+                if(body.size() > length_end + 3 && trailer_length > MAX_HTTP_HEADER_SIZE)
+                    return fr::Socket::Status::HttpHeaderTooBig;
+                if(message_end == std::string::npos)
+                    break;
+                body.resize(chunk_offset);
                 return fr::Socket::Status::Success;
-            return fr::Socket::Status::NotEnoughData;
+            }
+
+            //Ensure that body doesn't exceed maximum length
+            if(chunk_len > MAX_HTTP_BODY_SIZE - chunk_offset)
+                return fr::Socket::Status::HttpBodyTooBig;
+
+            //If the current chunk hasn't fully been received yet then ask for more data
+            if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
+                break;
+
+            //Now we have the full chunk, move it over its length
+            std::copy_n(body.begin() + length_end + 2, chunk_len, body.begin() + chunk_offset);
+            chunk_offset += chunk_len;
+            read_offset = length_end + chunk_len + 4;
         }
 
-        //Cut off any data if it exceeds content length, provided that a content length is specified
-        if(content_length > 0 && body.size() > content_length)
-            body.resize(content_length);
-        else if(body.size() < content_length)
-            return fr::Socket::Status::NotEnoughData;
-        return fr::Socket::Status::Success;
+        if(length_end == std::string::npos && body.size() - read_offset > MAX_HTTP_HEADER_SIZE + 1)
+            return fr::Socket::Status::HttpHeaderTooBig;
 
+        //Get rid of what surrounded the decoded chunks
+        body.erase(chunk_offset, read_offset - chunk_offset);
+        return fr::Socket::Status::NotEnoughData;
     }
 
     std::string HttpResponse::construct(const std::string &host) const
-- 
2.43.0


From f363cffcc01f0be6d37ff48fed049face4514e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 14/63] fix: the MIME types of .jpg, .jpeg, .atom and .rss
 files aren't found

---
 src/Http.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 900b3aa..d7c2cae 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -322,7 +322,7 @@ namespace fr
                 {".s", "text/x-asm"},
                 {".atomcat", "application/atomcat+xml"},
                 {".atomsvc", "application/atomsvc+xml"},
-                {".atom, .xml", "application/atom+xml"},
+                {".atom", "application/atom+xml"},
                 {".ac", "application/pkix-attr-cert"},
                 {".aif", "audio/x-aiff"},
                 {".avi", "video/x-msvideo"},
@@ -543,8 +543,8 @@ namespace fr
                 {".json", "application/json"},
                 {".joda", "application/vnd.joost.joda-archive"},
                 {".jpm", "video/jpm"},
-                {".jpeg, .jpg", "image/jpeg"},
-                {".jpeg, .jpg", "image/x-citrix-jpeg"},
+                {".jpeg", "image/jpeg"},
+                {".jpg", "image/jpeg"},
                 {".pjpeg", "image/pjpeg"},
                 {".jpgv", "video/jpeg"},
                 {".ktz", "application/vnd.kahootz"},
@@ -821,7 +821,7 @@ namespace fr
                 {".rtf", "application/rtf"},
                 {".rtx", "text/richtext"},
                 {".link66", "application/vnd.route66.link66+xml"},
-                {".rss, .xml", "application/rss+xml"},
+                {".rss", "application/rss+xml"},
                 {".shf", "application/shf+xml"},
                 {".st", "application/vnd.sailingtracker.track"},
                 {".svg", "image/svg+xml"},
-- 
2.43.0


From 9883d759e1a7d9c2ec5b135b4bde3c770791b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 15/63] fix: extracting a vector allocates whatever length the
 packet claims

---
 include/frnetlib/Packet.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..376b843 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -135,12 +135,14 @@ namespace fr
 
             //First extract the length
             *this >> length;
-            vec.resize(length);
+            vec.clear();
 
-            //Now take each of the elements out of the packet
-            for(auto &&iter : vec)
+            //Now take each of the elements out of the packet. The length can't be trusted, so don't allocate it up front.
+            for(uint32_t a = 0; a < length; a++)
             {
-                *this >> iter;
+                vec.emplace_back();
+                auto &&element = vec.back();
+                *this >> element;
             }
             return *this;
         }
-- 
2.43.0


From 03400558804978682ea97b45ca5800cf57013f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 16/63] fix: Packet::assert_bytes_remaining overflows for huge
 sizes

---
 include/frnetlib/Packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 376b843..4e1496b 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -697,7 +697,7 @@ namespace fr
          */
         inline void assert_bytes_remaining(size_t required_space) const
         {
-            if(buffer_read_index + required_space > buffer.size())
+            if(buffer_read_index > buffer.size() || required_space > buffer.size() - buffer_read_index)
             {
                 throw std::out_of_range("Not enough bytes remaining in packet to extract requested data");
             }
-- 
2.43.0


From 04e410198fc2736abcc92b175dd2b4b56e11e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 17/63] fix: extreme seeks move a packet's cursor to the wrong
 end, or before the data

---
 include/frnetlib/Packet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 4e1496b..3f89339 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -645,7 +645,7 @@ namespace fr
          */
         inline void set_cursor(size_t pos = 0)
         {
-            buffer_read_index = PACKET_HEADER_LENGTH + pos;
+            buffer_read_index = pos > buffer.size() ? buffer.size() : PACKET_HEADER_LENGTH + pos;
             if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
         }
 
@@ -668,7 +668,7 @@ namespace fr
          */
         inline void seek_cursor(ssize_t pos)
         {
-            ssize_t new_offset = buffer_read_index + pos;
+            ssize_t new_offset = pos > (ssize_t)buffer.size() ? (ssize_t)buffer.size() : (ssize_t)buffer_read_index + pos;
             if(new_offset < (ssize_t)PACKET_HEADER_LENGTH)
                 new_offset = PACKET_HEADER_LENGTH;
             if(new_offset > (ssize_t)buffer.size())
-- 
2.43.0


From e827f0e4146017cfa77f4ffc7b83fbb5bf936ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 18/63] fix: extracting a bool from a byte other than 0 or 1 is
 undefined behaviour

---
 include/frnetlib/Packet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 3f89339..dbe8fdc 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -264,10 +264,10 @@ namespace fr
          */
         inline Packet &operator>>(bool &var)
         {
-            assert_bytes_remaining(sizeof(var));
-
-            memcpy(&var, &buffer[buffer_read_index], sizeof(var));
-            buffer_read_index += sizeof(var);
+            //Not every byte is a valid bool, so it can't be copied straight into one
+            uint8_t val;
+            *this >> val;
+            var = val != 0;
             return *this;
         }
 
-- 
2.43.0


From 6beef7764c6389d4867db2849e918d4e63496378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 19/63] fix: receiving into a used packet leaves part of its
 old contents and cursor in place

---
 include/frnetlib/Packet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index dbe8fdc..7467380 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -773,9 +773,9 @@ namespace fr
             if(socket->get_max_receive_size() && packet_length > socket->get_max_receive_size())
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
-            //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            //Now we've got the length, read the rest of the data in, replacing any previous contents
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
 
             do
             {
-- 
2.43.0


From 4ef78e0ad1f2624ea710809177cfca68cfeb5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 20/63] fix: clients exceeding the maximum receive size aren't
 disconnected as documented

---
 include/frnetlib/Packet.h | 3 +++
 src/WebFrame.cpp          | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 7467380..d6a0c50 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -771,7 +771,10 @@ namespace fr
 
             //Check that packet_length doesn't exceed the limit, if any
             if(socket->get_max_receive_size() && packet_length > socket->get_max_receive_size())
+            {
+                socket->disconnect();
                 return fr::Socket::Status::MaxPacketSizeExceeded;
+            }
 
             //Now we've got the length, read the rest of the data in, replacing any previous contents
             buffer.resize(packet_length + PACKET_HEADER_LENGTH);
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..13e4221 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -143,6 +143,7 @@ namespace fr
         //Verify that payload length isn't too large
         if(socket->get_max_receive_size() && payload_length > socket->get_max_receive_size())
         {
+            socket->disconnect();
             return Socket::Status::MaxPacketSizeExceeded;
         }
 
-- 
2.43.0


From cf7418483b626ed1e9e3fef0e0c8d3f83e5b5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 21/63] fix: sending a frame as a client leaves its payload
 masked

---
 include/frnetlib/WebFrame.h | 2 +-
 src/WebFrame.cpp            | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index 5137b98..e4f2ca8 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -126,7 +126,7 @@ namespace fr
         virtual bool is_client() const = 0;
 
     private:
-        mutable std::string payload;
+        std::string payload;
         Opcode opcode;
         uint8_t final;
         static uint32_t current_mask_key;
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 13e4221..af17ba2 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -71,11 +71,13 @@ namespace fr
             //Encode the payload using the mask key
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer += payload[a] ^ mask_union.str_mask_key[a % 4];
             }
         }
-
-        buffer.append(payload);
+        else
+        {
+            buffer.append(payload);
+        }
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From 76a418c060d46e52451943f3cbfc26c125e64d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 22/63] fix: clients sending frames from several threads race
 on the masking key

---
 include/frnetlib/WebFrame.h | 3 ++-
 src/WebFrame.cpp            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index e4f2ca8..a68bd65 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -6,6 +6,7 @@
 #define FRNETLIB_WEBFRAME_H
 
 
+#include <atomic>
 #include <ctime>
 #include "Sendable.h"
 
@@ -129,7 +130,7 @@ namespace fr
         std::string payload;
         Opcode opcode;
         uint8_t final;
-        static uint32_t current_mask_key;
+        static std::atomic<uint32_t> current_mask_key;
     };
 
     class ClientWebFrame : public fr::WebFrame {
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index af17ba2..7bd61c8 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -7,7 +7,7 @@
 
 namespace fr
 {
-    uint32_t WebFrame::current_mask_key = static_cast<uint32_t>(std::time(nullptr));
+    std::atomic<uint32_t> WebFrame::current_mask_key{static_cast<uint32_t>(std::time(nullptr))};
 
     WebFrame::WebFrame(WebFrame::Opcode type)
     : opcode(type),
-- 
2.43.0


From cdf19b1178a3748a63f36b713dd15c732c0dd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 23/63] fix: 65535 byte WebSocket frames don't use the shortest
 length form

---
 src/WebFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7bd61c8..62e19a8 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
-- 
2.43.0


From 7820080f93b39bef0edfdd93b6d60afd0d4b61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 24/63] fix: a WebSocket frame claiming a huge payload makes
 receive throw

---
 src/WebFrame.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 62e19a8..35f571d 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -2,6 +2,7 @@
 // Created by fred on 01/03/18.
 //
 
+#include <algorithm>
 #include "frnetlib/WebFrame.h"
 #include "frnetlib/WebSocket.h"
 
@@ -167,16 +168,20 @@ namespace fr
                 return status;
         }
 
-        //Read payload
-        payload.resize(payload_length, '\0');
-        do
+        //Read payload. Make room for it as it arrives, as the length could be anything if there's no limit.
+        while(payload.size() < payload_length)
         {
-            status = socket->receive_all(&payload[0], payload_length);
-        } while(status == fr::Socket::Status::WouldBlock);
-        if(status == fr::Socket::Status::Timeout)
-            status = fr::Socket::Status::Disconnected;
-        if(status != fr::Socket::Status::Success)
-            return status;
+            const size_t offset = payload.size();
+            payload.resize(offset + std::min<uint64_t>(payload_length - offset, std::max<size_t>(offset, 0x10000)));
+            do
+            {
+                status = socket->receive_all(&payload[offset], payload.size() - offset);
+            } while(status == fr::Socket::Status::WouldBlock);
+            if(status == fr::Socket::Status::Timeout)
+                status = fr::Socket::Status::Disconnected;
+            if(status != fr::Socket::Status::Success)
+                return status;
+        }
 
         //Decode the payload if the mask bit is set
         if(mask)
-- 
2.43.0


From b9653367ef97519ea4c48cb489e6faf1e2db5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 25/63] fix: accepting into a connected TcpSocket leaks its
 descriptor

---
 src/TcpSocket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..c9ce5a8 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -105,7 +105,11 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
-        socket_descriptor = *static_cast<int32_t*>(descriptor);
+
+        int32_t new_descriptor = *static_cast<int32_t*>(descriptor);
+        if(new_descriptor != socket_descriptor)
+            TcpSocket::close_socket();
+        socket_descriptor = new_descriptor;
         reconfigure_socket();
     }
 
-- 
2.43.0


From 111ca9558e41dc83970114295178d72d81d4c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 26/63] fix: a reused TcpSocket reports the blocking mode of
 its previous connection

---
 src/TcpSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index c9ce5a8..5151083 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -110,6 +110,11 @@ namespace fr
         if(new_descriptor != socket_descriptor)
             TcpSocket::close_socket();
         socket_descriptor = new_descriptor;
+#ifdef _WIN32
+        is_blocking = true;
+#else
+        is_blocking = (fcntl(socket_descriptor, F_GETFL, 0) & O_NONBLOCK) == 0;
+#endif
         reconfigure_socket();
     }
 
@@ -192,6 +197,7 @@ namespace fr
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
             return Socket::Status::Error;
+        is_blocking = true;
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From 01dedb48271b62466bdbbc112edc8fb25942c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 27/63] fix: failed connects leak descriptors and leave the
 socket reported as connected

---
 src/TcpSocket.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 5151083..474554f 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -120,6 +120,9 @@ namespace fr
 
     Socket::Status TcpSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
     {
+        //Drop the current connection, if any
+        TcpSocket::close_socket();
+
         //Setup required structures
         int ret = 0;
         addrinfo *info;
@@ -143,9 +146,10 @@ namespace fr
         addrinfo *c;
         for(c = info; c != nullptr; c = c->ai_next)
         {
-            //Get the socket for this entry
+            //Get the socket for this entry, after getting rid of that of a failed one
+            TcpSocket::close_socket();
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
-            if(socket_descriptor == INVALID_SOCKET)
+            if(socket_descriptor < 0)
                 continue;
 
 
@@ -192,11 +196,17 @@ namespace fr
         //We're done with this now, cleanup
         freeaddrinfo(info);
         if(c == nullptr)
+        {
+            TcpSocket::close_socket();
             return Socket::Status::NoRouteToHost;
+        }
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            TcpSocket::close_socket();
             return Socket::Status::Error;
+        }
         is_blocking = true;
 
         //Update state now we've got a valid socket descriptor
-- 
2.43.0


From b7d9a59061a9a3af04ed36bdd55e9257bf155ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 28/63] fix: TcpSocket::connect overflows its fd_set with large
 descriptors, and gives up if a signal arrives

---
 src/TcpSocket.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 474554f..44921aa 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -2,7 +2,13 @@
 // Created by fred on 06/12/16.
 //
 
+#include <algorithm>
+#include <chrono>
 #include <iostream>
+#include <limits>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
 #define DEFAULT_SOCKET_TIMEOUT 20
@@ -173,6 +179,7 @@ namespace fr
             }
 
             //Wait for the socket to do something/expire
+#ifdef _WIN32
             timeval tv = {};
             tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
             tv.tv_usec = 0;
@@ -180,6 +187,19 @@ namespace fr
             FD_ZERO(&set);
             FD_SET(socket_descriptor, &set);
             ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
+#else
+            //An fd_set can't hold descriptors past FD_SETSIZE, so use poll. Being interrupted by a signal isn't a failure.
+            const int64_t max_wait = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : std::min<int64_t>(timeout.count(), std::numeric_limits<int>::max() / 1000);
+            const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(max_wait);
+            pollfd event = {};
+            event.fd = socket_descriptor;
+            event.events = POLLOUT;
+            do
+            {
+                auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(deadline - std::chrono::steady_clock::now());
+                ret = poll(&event, 1, static_cast<int>(std::max<int64_t>(remaining.count(), 0)));
+            } while(ret < 0 && errno == EINTR);
+#endif
             if(ret <= 0)
                 continue;
 
-- 
2.43.0


From e01e464b5a325628aea3a81f869fcc56d4622a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 29/63] fix: a failed or repeated TcpListener::listen leaks
 descriptors or closes them twice

---
 src/TcpListener.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..c0f0060 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -25,6 +25,9 @@ namespace fr
 
     Socket::Status TcpListener::listen(const std::string &port)
     {
+        //Stop listening on the current port, if any
+        TcpListener::close_socket();
+
         addrinfo *info;
         addrinfo hints{};
 
@@ -43,8 +46,9 @@ namespace fr
         addrinfo *c = nullptr;
         for(c = info; c != nullptr; c = c->ai_next)
         {
-            //Attempt to connect
-            if((socket_descriptor = socket(c->ai_family, c->ai_socktype, c->ai_protocol)) == INVALID_SOCKET)
+            //Attempt to connect, after getting rid of the socket of a failed attempt
+            TcpListener::close_socket();
+            if((socket_descriptor = socket(c->ai_family, c->ai_socktype, c->ai_protocol)) < 0)
             {
                 continue;
             }
@@ -72,7 +76,6 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
                 continue;
             }
             break;
@@ -84,6 +87,7 @@ namespace fr
         //Check that we've actually bound
         if(c == nullptr)
         {
+            TcpListener::close_socket();
             return Socket::Status::BindFailed;
         }
 
@@ -91,6 +95,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            TcpListener::close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
-- 
2.43.0


From 144de2ebcb88d9c67fbdea7fb98c1c120bfc724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 30/63] fix: a moved from TcpListener closes the descriptor it
 gave away

---
 include/frnetlib/TcpListener.h | 2 +-
 src/TcpListener.cpp            | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/TcpListener.h b/include/frnetlib/TcpListener.h
index 1e0c29a..fc71114 100644
--- a/include/frnetlib/TcpListener.h
+++ b/include/frnetlib/TcpListener.h
@@ -19,7 +19,7 @@ public:
     TcpListener();
 
     ~TcpListener() override;
-    TcpListener(TcpListener &&o) = default;
+    TcpListener(TcpListener &&o) noexcept;
 
     /*!
      * Listens to the given port for connections
diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index c0f0060..52134a6 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -18,6 +18,14 @@ namespace fr
 
     }
 
+    TcpListener::TcpListener(TcpListener &&o) noexcept
+            : Listener(std::move(o)),
+              socket_descriptor(o.socket_descriptor)
+    {
+        //The descriptor has a new owner now
+        o.socket_descriptor = -1;
+    }
+
     TcpListener::~TcpListener()
     {
         close_socket();
-- 
2.43.0


From f4dab6e45f336af0d52ae9efcd9b798cf6c4666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 31/63] fix: removing a disconnected socket from a selector
 throws, or unregisters another one

---
 src/SocketSelector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..68b8199 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -83,7 +83,9 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
+        //If the socket has been closed since, then it's been unregistered already and its descriptor may belong to something else
+        if(socket->get_socket_descriptor() == iter->second.descriptor &&
+           epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From 9dd9c5299fd3816a02733e00d18f02781e48e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 32/63] fix: an SSLSocket can't be made non-blocking

---
 src/SSLSocket.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..4e6e342 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -113,7 +113,7 @@ namespace fr
                         {
                             return Socket::Status::Timeout;
                         }
-                        continue;
+                        return Socket::Status::WouldBlock;
                     }
 
                     errno = static_cast<int>(status);
@@ -245,7 +245,10 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
+        if(!connected())
+            return fr::Socket::Status::Error;
+
+        int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
             errno = ret;
-- 
2.43.0


From 3c71918b18d1d880b3034beecb10f0672d365b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 33/63] fix: continuing a partial SSLSocket::send_raw sends the
 data from its beginning again

---
 src/SSLSocket.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 4e6e342..10df620 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -66,7 +66,6 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
         ssize_t status = 0;
 
         while(sent < size)
-- 
2.43.0


From 90c5ffc8a67c349998c394b87c389c5fdf181d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 34/63] fix: SSLSocket ignores its receive and send timeouts

---
 include/frnetlib/SSLSocket.h |   1 -
 src/SSLSocket.cpp            | 101 ++++++++++++++++++-----------------
 2 files changed, 51 insertions(+), 51 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 322d205..5452e57 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -146,7 +146,6 @@ namespace fr
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
-        uint32_t receive_timeout;
         bool is_blocking;
     };
 }
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 10df620..efd2ae7 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -35,6 +35,30 @@ void web_free(mbedtls_net_context *ctx)
     delete ctx;
 }
 
+//Same as mbedtls_net_recv, but a timeout of the socket isn't an error, and being interrupted by a signal isn't a timeout
+static int net_recv(void *ctx, unsigned char *buf, size_t len)
+{
+    int ret;
+    do
+    {
+        errno = 0;
+        ret = mbedtls_net_recv(ctx, buf, len);
+    } while(ret < 0 && errno == EINTR);
+    return (ret < 0 && errno == EWOULDBLOCK) ? MBEDTLS_ERR_SSL_WANT_READ : ret;
+}
+
+//Same as mbedtls_net_send, with the same exceptions
+static int net_send(void *ctx, const unsigned char *buf, size_t len)
+{
+    int ret;
+    do
+    {
+        errno = 0;
+        ret = mbedtls_net_send(ctx, buf, len);
+    } while(ret < 0 && errno == EINTR);
+    return (ret < 0 && errno == EWOULDBLOCK) ? MBEDTLS_ERR_SSL_WANT_WRITE : ret;
+}
+
 namespace fr
 {
     SSLSocket::SSLSocket(std::shared_ptr<SSLContext> ssl_context_) noexcept
@@ -42,7 +66,6 @@ namespace fr
        ssl_socket_descriptor(nullptr, web_free),
        ssl(nullptr, ssl_free),
        should_verify(true),
-       receive_timeout(0),
        is_blocking(true)
     {
         //Initialise mbedtls structures
@@ -94,63 +117,26 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
-        ssize_t status = 0;
-        if(receive_timeout == 0)
+        ssize_t status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
+        if(status == 0)
         {
-            do
-            {
-                status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
-                if(status == 0)
-                {
-                    return Socket::Status::Disconnected;
-                }
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
-                    {
-                        if(is_blocking)
-                        {
-                            return Socket::Status::Timeout;
-                        }
-                        return Socket::Status::WouldBlock;
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            return Socket::Status::Disconnected;
         }
-        else
+        if(status < 0)
         {
-            do
+            if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
             {
-                status = mbedtls_net_recv_timeout(ssl.get(), (unsigned char *)data, data_size, receive_timeout);
-                if(status == 0)
+                if(is_blocking)
                 {
-                    return Socket::Status::Disconnected;
+                    return Socket::Status::Timeout;
                 }
+                return Socket::Status::WouldBlock;
+            }
 
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_TIMEOUT)
-                    {
-                        return Socket::Status::WouldBlock;
-                    }
-
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ)
-                    {
-                        continue; //try again, interrupted before anything could be received
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            errno = static_cast<int>(status);
+            return Socket::Status::SSLError;
         }
 
-
         received = static_cast<size_t>(status);
         return Socket::Status::Success;
 
@@ -198,7 +184,7 @@ namespace fr
             return Socket::Status::SSLError;
         }
 
-        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), mbedtls_net_send, mbedtls_net_recv, nullptr);
+        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), net_send, net_recv, nullptr);
 
         //Do SSL handshake
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
@@ -234,7 +220,11 @@ namespace fr
     {
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
         if(descriptor)
+        {
+            if(ssl)
+                mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), net_send, net_recv, nullptr);
             reconfigure_socket();
+        }
     }
 
     void SSLSocket::verify_certificates(bool should_verify_)
@@ -269,6 +259,17 @@ namespace fr
 #ifndef _WIN32
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), SOL_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
+
+        //Apply receive timeout
+        struct timeval tv = {};
+        tv.tv_sec = get_receive_timeout() / 1000;
+        tv.tv_usec = (get_receive_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
+
+        //Apply send timeout
+        tv.tv_sec = get_send_timeout() / 1000;
+        tv.tv_usec = (get_send_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof(tv));
 #else
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), IPPROTO_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
-- 
2.43.0


From d6194b926892f31e87a4db0925e2e6882e74caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 35/63] fix: an orderly close of a TLS connection is reported
 as an error, and failed reads keep a stale count

---
 src/SSLSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index efd2ae7..0e77a3f 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -117,8 +117,9 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
+        received = 0;
         ssize_t status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
-        if(status == 0)
+        if(status == 0 || status == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY)
         {
             return Socket::Status::Disconnected;
         }
-- 
2.43.0


From 36dc1fa3d028fc98d7e74cc7747d1bb4dcc76887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 36/63] fix: an SSLSocket whose connect failed stays connected,
 without its server being verified

---
 src/SSLSocket.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 0e77a3f..836b98a 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -155,7 +155,10 @@ namespace fr
             fr::TcpSocket socket;
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
+            {
+                close_socket();
                 return ret;
+            }
             ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
             socket.set_descriptor(nullptr);
@@ -165,6 +168,7 @@ namespace fr
         int error = 0;
         if((error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -175,12 +179,14 @@ namespace fr
 
         if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
 
         if((error = mbedtls_ssl_set_hostname(ssl.get(), address.c_str())) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -192,6 +198,7 @@ namespace fr
         {
             if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
             {
+                close_socket();
                 errno = error;
                 return Socket::Status::SSLError;
             }
@@ -202,6 +209,7 @@ namespace fr
         {
             if(mbedtls_ssl_get_verify_result(ssl.get()) != 0)
             {
+                close_socket();
                 return Socket::Status::VerificationFailed;
             }
         }
-- 
2.43.0


From 0ddfdcdcde7d50d15d343d5c0515d325db653442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 37/63] fix: a reused SSLSocket reports the blocking mode of
 its previous connection

---
 src/SSLSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 836b98a..a1153fb 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -215,6 +215,7 @@ namespace fr
         }
 
         //Update state
+        is_blocking = true;
         reconfigure_socket();
 
         return Socket::Status::Success;
@@ -232,6 +233,11 @@ namespace fr
         {
             if(ssl)
                 mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), net_send, net_recv, nullptr);
+#ifdef _WIN32
+            is_blocking = true;
+#else
+            is_blocking = (fcntl(get_socket_descriptor(), F_GETFL, 0) & O_NONBLOCK) == 0;
+#endif
             reconfigure_socket();
         }
     }
-- 
2.43.0


From 39415027bfbf91b01b384cb85ef07dad80d1d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 38/63] fix: SSLSocket::connect ignores the requested IP
 version

---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index a1153fb..c253a94 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -153,6 +153,7 @@ namespace fr
         //Open the descriptor, and then steal it. This is a hack.
         {
             fr::TcpSocket socket;
+            socket.set_inet_version(ai_family == AF_INET ? Socket::IP::v4 : (ai_family == AF_INET6 ? Socket::IP::v6 : Socket::IP::any));
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
             {
-- 
2.43.0


From 7826e4ff1e064e0e15a20a4ce7b77140dd64a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 39/63] fix: SSLSocket::connect waits forever for a server
 which doesn't handshake

---
 src/SSLSocket.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index c253a94..9f882df 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -3,12 +3,17 @@
 //
 
 #include "frnetlib/SSLSocket.h"
+#include <algorithm>
+#include <chrono>
+#include <limits>
 #include <memory>
 #include <utility>
 
 #include <mbedtls/net_sockets.h>
 #include <frnetlib/SSLSocket.h>
 
+#define DEFAULT_HANDSHAKE_TIMEOUT 20
+
 mbedtls_net_context *net_create()
 {
     auto *ctx = new mbedtls_net_context;
@@ -194,10 +199,18 @@ namespace fr
 
         mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), net_send, net_recv, nullptr);
 
-        //Do SSL handshake
+        //Do SSL handshake, the timeout applies to this too
+        const int64_t max_wait = timeout.count() <= 0 ? DEFAULT_HANDSHAKE_TIMEOUT : std::min<int64_t>(timeout.count(), std::numeric_limits<int>::max());
+        const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(max_wait);
+#ifndef _WIN32
+        struct timeval tv = {};
+        tv.tv_sec = max_wait;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof(tv));
+#endif
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
         {
-            if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
+            if((error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE) || std::chrono::steady_clock::now() >= deadline)
             {
                 close_socket();
                 errno = error;
-- 
2.43.0


From fa6c9f6595dbc0f499821a0a5096a4970b27057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 40/63] fix: the ftp scheme isn't known

---
 src/URL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..e9c5bb2 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
-- 
2.43.0


From 580c638da21a3364a5e4d565b6a9f87c76c7979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 41/63] fix: the port guessed for sftp is that of SMTP

---
 src/URL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index e9c5bb2..939a873 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -84,7 +84,7 @@ namespace fr
                     port = "21";
                     break;
                 case URL::SFTP:
-                    port = "25";
+                    port = "22";
                     break;
                 default:
                     break;
-- 
2.43.0


From d778e23709f5072792546d51f3ef9200decb5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 42/63] fix: a default constructed URL has an uninitialised
 scheme

---
 include/frnetlib/URL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..710011b 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme{Scheme::Unknown};
         std::string host;
         std::string port;
         std::string path;
-- 
2.43.0


From 4ba66f8e70bc226337675efdba97ad43e670e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 43/63] fix: parsing a URL keeps parts of the previously parsed
 one

---
 src/URL.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/URL.cpp b/src/URL.cpp
index 939a873..3f29dfd 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -29,6 +29,11 @@ namespace fr
     void URL::parse(const std::string &url)
     {
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
         size_t pos = 0;
 
-- 
2.43.0


From fab915d04d41aec65276b66c916fe4fa892d5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 44/63] fix: delimiters in later parts of a URL are taken for
 those of earlier ones

---
 src/URL.cpp | 84 ++++++++++++++++++-----------------------------------
 1 file changed, 28 insertions(+), 56 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 3f29dfd..209322e 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -37,42 +37,35 @@ namespace fr
         size_t parse_offset = 0;
         size_t pos = 0;
 
-        //Check to see if a scheme exists
+        //Check to see if a scheme exists. A '://' in a later part of the URL isn't a scheme.
         pos = url.find("://");
-        if(pos != std::string::npos)
+        if(pos != std::string::npos && url.find_first_of("/?#") == pos + 1)
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
-        //Check to see if there's a port
-        pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
-        {
-            //Store host
-            host = url.substr(parse_offset, pos - parse_offset);
-            parse_offset += host.size();
+        //The host and port end where the path, query or fragment starts
+        const size_t authority_end = std::min(url.find_first_of("/?#", parse_offset), url.size());
 
-            //Find end of port
-            size_t port_end = url.find('/', parse_offset);
-            port_end = (port_end == std::string::npos) ? url.size() : port_end;
-            port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+        //Check to see if there's a port, bearing in mind that IPv6 addresses contain colons
+        pos = parse_offset < authority_end && url[parse_offset] == '[' ? url.find(']', parse_offset) : parse_offset;
+        pos = std::min(url.find(':', pos < authority_end ? pos : parse_offset), authority_end);
+        if(pos < authority_end) //A port is provided
+        {
+            port = url.substr(pos + 1, authority_end - pos - 1);
         }
-        else //There's no port
+
+        //Store host. If there's only a single word, without anything around it, then it's treated as a path instead.
+        if(parse_offset != 0 || pos != url.size())
         {
-            //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
-            if(pos != std::string::npos || parse_offset != 0)
-            {
-                pos = (pos != std::string::npos) ? pos : url.size();
-                host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
-            }
+            host = url.substr(parse_offset, pos - parse_offset);
+            parse_offset = authority_end;
+        }
 
+        if(port.empty())
+        {
             //Guess port based on scheme, if it's not explicitly provided.
             switch(scheme)
             {
@@ -96,41 +89,20 @@ namespace fr
             }
         }
 
-        //Exit if done
-        if(parse_offset >= url.size())
-            return;
-
         //Extract the path
-        pos = url.find('?', parse_offset);
-        if(pos != std::string::npos)
-        {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
-        else
-        {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+        const size_t path_end = std::min(url.find_first_of("?#", parse_offset), url.size());
+        path = url.substr(parse_offset, path_end - parse_offset);
+        if(!path.empty() && path.front() != '/')
+            path.insert(0, "/");
 
         //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
-        {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
-        else
-        {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
-        }
+        const size_t query_end = std::min(url.find('#', path_end), url.size());
+        if(query_end > path_end)
+            query = url.substr(path_end + 1, query_end - path_end - 1);
 
+        //Extract the fragment
+        if(query_end < url.size())
+            fragment = url.substr(query_end + 1);
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From 130e6099df7ed693f15d642189e288f72ca471b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 45/63] fix: a URL can't be parsed from one of its own
 components

---
 src/URL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 209322e..74ff82e 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -26,8 +26,9 @@ namespace fr
     }
 
 
-    void URL::parse(const std::string &url)
+    void URL::parse(const std::string &url_)
     {
+        const std::string url = url_; //Might be part of what's being replaced
         scheme = Scheme::Unknown;
         host.clear();
         port.clear();
-- 
2.43.0


From 9dcd90ccbfc7733d6ee91e5185c27f1273183ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 46/63] fix: the disconnect frame sent by a WebSocket server is
 one of a client

---
 include/frnetlib/WebSocket.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 20f8187..e2c7fde 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -36,6 +36,7 @@ namespace fr
         Socket::Status connect(const std::string &address, const std::string &port, const std::string &path,  const std::vector<std::string> &ws_protocols, std::chrono::seconds timeout)
         {
             //Establish a connection using the parent class
+            is_server = false;
             Socket::Status status = SocketType::connect(address, port, timeout);
             if(status != Socket::Status::Success)
                 return status;
@@ -105,7 +106,9 @@ namespace fr
          */
         void disconnect() override
         {
-            ClientWebFrame frame;
+            ClientWebFrame client_frame;
+            ServerWebFrame server_frame;
+            WebFrame &frame = is_server ? static_cast<WebFrame&>(server_frame) : client_frame;
             frame.set_opcode(WebFrame::Opcode::Disconnect);
             if(SocketType::connected())
                 SocketType::send(frame);
@@ -122,6 +125,7 @@ namespace fr
         void set_descriptor(void *descriptor) override
         {
             SocketType::set_descriptor(descriptor);
+            is_server = true;
             if(!descriptor || SocketType::get_socket_descriptor() == -1)
                 return;
 
@@ -142,6 +146,9 @@ namespace fr
             response.header("Sec-WebSocket-Accept") = derived_key;
             SocketType::send(response);
         }
+
+    private:
+        bool is_server{false}; //True if the connection has been accepted, rather than made
     };
 }
 
-- 
2.43.0


From b2f72e1947363cc19a7e8238b4ba8e4a8b5c5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:48 +0000
Subject: [PATCH 47/63] fix: frames sent together with a WebSocket handshake
 are lost

---
 include/frnetlib/WebSocket.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index e2c7fde..3ef3da4 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -64,7 +64,7 @@ namespace fr
 
             //Receive the response
             HttpResponse response;
-            status = SocketType::receive(response);
+            status = receive_handshake(response);
             if(status != Socket::Status::Success)
                 return status;
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
@@ -131,7 +131,7 @@ namespace fr
 
             //Initialise connection, receive the handshake
             HttpRequest request;
-            if(SocketType::receive(request) != Socket::Status::Success)
+            if(receive_handshake(request) != Socket::Status::Success)
                 throw std::runtime_error("Failed to receive WebSock handshake");
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
@@ -148,6 +148,27 @@ namespace fr
         }
 
     private:
+        /*!
+         * Receives the other side's half of the handshake. This reads no further than
+         * its end, as what follows it are frames, which may have been sent along with it.
+         *
+         * @param message Where to store the request/response received
+         * @return Status of the receive. 'Success' if all of it was received.
+         */
+        Socket::Status receive_handshake(Http &message)
+        {
+            Socket::Status status;
+            do
+            {
+                char byte;
+                size_t received = 0;
+                status = SocketType::receive_raw(&byte, sizeof(byte), received);
+                if(status == Socket::Status::Success)
+                    status = message.parse(&byte, received);
+            } while(status == Socket::Status::NotEnoughData);
+            return status;
+        }
+
         bool is_server{false}; //True if the connection has been accepted, rather than made
     };
 }
-- 
2.43.0


From 824d4d25f049c2895ce4376d0f83fe362905929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:48 +0000
Subject: [PATCH 48/63] fix: a WebSocket stays connected after its handshake
 failed

---
 include/frnetlib/WebSocket.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 3ef3da4..7d2920d 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -60,13 +60,19 @@ namespace fr
 
             status = SocketType::send(request);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
 
             //Receive the response
             HttpResponse response;
             status = receive_handshake(response);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
             {
                 disconnect();
-- 
2.43.0


From 1c388ddad896b2932b1e46023211154a78f56254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 49/63] fix: WebSocket servers refuse clients which spell the
 protocol name in another case

---
 include/frnetlib/WebSocket.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 7d2920d..30c7bf9 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,6 +5,8 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
+#include <algorithm>
+#include <cctype>
 #include <ctime>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
@@ -140,7 +142,9 @@ namespace fr
             if(receive_handshake(request) != Socket::Status::Success)
                 throw std::runtime_error("Failed to receive WebSock handshake");
 
-            if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            std::string upgrade = request.header("Upgrade"); //The protocol name is case insensitive
+            std::transform(upgrade.begin(), upgrade.end(), upgrade.begin(), ::tolower);
+            if(upgrade != "websocket" || request.get_type() != Http::RequestType::Get)
                 throw std::runtime_error("Client isn't using the WebSock protocol");
 
             //Calculate the derived key, then send back our response
-- 
2.43.0


From 056aadb0281107f2227a3706423dd90f5db52874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 50/63] fix: WebSocket servers accept handshakes without a key

---
 include/frnetlib/WebSocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 30c7bf9..56b4500 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -144,7 +144,7 @@ namespace fr
 
             std::string upgrade = request.header("Upgrade"); //The protocol name is case insensitive
             std::transform(upgrade.begin(), upgrade.end(), upgrade.begin(), ::tolower);
-            if(upgrade != "websocket" || request.get_type() != Http::RequestType::Get)
+            if(upgrade != "websocket" || request.get_type() != Http::RequestType::Get || request.header("sec-websocket-key").empty())
                 throw std::runtime_error("Client isn't using the WebSock protocol");
 
             //Calculate the derived key, then send back our response
-- 
2.43.0


From ac8c964049ae88e36afdb07f0f56aa9a625ee623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 51/63] fix: the key sent by WebSocket clients isn't a random
 16 byte nonce

---
 include/frnetlib/WebSocket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 56b4500..a3c1310 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -7,7 +7,7 @@
 
 #include <algorithm>
 #include <cctype>
-#include <ctime>
+#include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
 #include "frnetlib/HttpResponse.h"
@@ -44,7 +44,11 @@ namespace fr
                 return status;
 
             //Send an upgrade request header
-            std::string websocket_key = Base64::encode(std::to_string(std::time(nullptr)));
+            std::random_device random;
+            std::string nonce(16, '\0');
+            for(char &byte : nonce)
+                byte = static_cast<char>(random());
+            std::string websocket_key = Base64::encode(nonce);
             HttpRequest request;
             request.header("sec-websocket-key") = websocket_key;
             request.header("sec-websocket-version") = "13";
-- 
2.43.0


From bc09e2916671120ee4a9fbcb7ae44e6ca8e54df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 52/63] fix: empty header values are dropped when parsing

---
 src/Http.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index d7c2cae..7de9d1e 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -245,8 +245,8 @@ namespace fr
 
         unsigned long data_begin;
         data_begin = str.find_first_not_of(' ', colon_pos + 1);
-        if(data_begin == std::string::npos)
-            return;
+        if(data_begin == std::string::npos) //A header may be empty
+            data_begin = str.size();
 
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
-- 
2.43.0


From 4c3779fb3372528c0af2946904f97d988bdbb9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 53/63] fix: requests with something else in place of the HTTP
 version are accepted

---
 src/HttpRequest.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 2b04600..53d60f4 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <cctype>
 #include <iostream>
 #include "frnetlib/HttpRequest.h"
 namespace fr
@@ -217,6 +218,14 @@ namespace fr
             throw std::invalid_argument("No URI found in: " + str);
         }
 
+        //It must be followed by a HTTP version and nothing else
+        std::string http_version = str.substr(uri_end + 1, str.find_last_not_of(" \t\r") - uri_end);
+        if(http_version.size() != 8 || http_version.compare(0, 5, "HTTP/") != 0 || !isdigit((unsigned char)http_version[5]) ||
+           http_version[6] != '.' || !isdigit((unsigned char)http_version[7]))
+        {
+            throw std::invalid_argument("No HTTP version found in: " + str);
+        }
+
         //Parse GET variables
         auto get_begin = str.find('?');
         if(get_begin > uri_begin && get_begin < uri_end)
-- 
2.43.0


From 0f0d537afc17bbf46deb6b2c46b468a3e3d31474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 54/63] fix: set_blocking appears to succeed on sockets which
 aren't connected

---
 src/TcpSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 44921aa..ba51dae 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -238,7 +238,7 @@ namespace fr
 
     Socket::Status TcpSocket::set_blocking(bool should_block)
     {
-        if(!set_unix_socket_blocking(socket_descriptor, is_blocking, should_block))
+        if(!connected() || !set_unix_socket_blocking(socket_descriptor, is_blocking, should_block))
             return Status::Error;
         is_blocking = should_block;
         return fr::Socket::Status::Success;
-- 
2.43.0


From ed87114a82e5c8bdb5c4f8d43a1b606ec76f4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 55/63] fix: long selector timeouts are cut down to a few
 milliseconds

---
 src/SocketSelector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 68b8199..b6f0940 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -4,6 +4,8 @@
 
 #include <thread>
 #include <mutex>
+#include <limits>
+#include <algorithm>
 #include "frnetlib/SocketSelector.h"
 
 //Linux EPOLL implementation
@@ -56,7 +58,8 @@ namespace fr
     SocketSelector::wait(std::chrono::milliseconds timeout)
     {
         static thread_local epoll_event events[100];
-        int event_count = epoll_wait(epoll_fd, events, 100, timeout.count());
+        const int timeout_ms = timeout.count() < 0 ? -1 : static_cast<int>(std::min<std::chrono::milliseconds::rep>(timeout.count(), std::numeric_limits<int>::max()));
+        int event_count = epoll_wait(epoll_fd, events, 100, timeout_ms);
         if(event_count < 0)
         {
             if(errno == EINTR)
-- 
2.43.0


From 0c8dcfdd75497c888f7de8ddfc29259d1645852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:32 +0000
Subject: [PATCH 56/63] fix: load_ca_certs_from_memory refuses PEM data

---
 include/frnetlib/SSLContext.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index cf39e45..9a0124f 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -57,7 +57,9 @@ namespace fr
          */
         bool load_ca_certs_from_memory(const std::string &ca_certs)
         {
-            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size()) == 0;
+            //mbedtls expects the size of PEM data to include its null terminator
+            const bool is_pem = ca_certs.find("-----BEGIN ") != std::string::npos;
+            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size() + (is_pem ? 1 : 0)) == 0;
         }
 
         /*!
-- 
2.43.0


From bb6b12dcac3c89297172e562133ba66c7e3124fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:41 +0000
Subject: [PATCH 57/63] fix: WebSocket connects ignore their timeout while
 waiting for the handshake

---
 include/frnetlib/WebSocket.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index a3c1310..54e1b1a 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -7,6 +7,8 @@
 
 #include <algorithm>
 #include <cctype>
+#include <chrono>
+#include <limits>
 #include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
@@ -15,6 +17,8 @@
 #include "Sha1.h"
 #include "WebFrame.h"
 
+#define DEFAULT_WEBSOCKET_HANDSHAKE_TIMEOUT 20
+
 namespace fr
 {
     template<typename SocketType = fr::Socket>
@@ -71,9 +75,14 @@ namespace fr
                 return status;
             }
 
-            //Receive the response
+            //Receive the response, the timeout applies to this too
+            const int64_t max_wait = timeout.count() <= 0 ? DEFAULT_WEBSOCKET_HANDSHAKE_TIMEOUT : std::min<int64_t>(timeout.count(), std::numeric_limits<int>::max() / 1000);
+            const uint32_t receive_timeout = SocketType::get_receive_timeout();
+            if(receive_timeout == 0 || receive_timeout > max_wait * 1000)
+                SocketType::set_receive_timeout(static_cast<uint32_t>(max_wait * 1000));
             HttpResponse response;
-            status = receive_handshake(response);
+            status = receive_handshake(response, std::chrono::steady_clock::now() + std::chrono::seconds(max_wait));
+            SocketType::set_receive_timeout(receive_timeout);
             if(status != Socket::Status::Success)
             {
                 SocketType::close_socket();
@@ -167,13 +176,16 @@ namespace fr
          * its end, as what follows it are frames, which may have been sent along with it.
          *
          * @param message Where to store the request/response received
+         * @param deadline When to give up
          * @return Status of the receive. 'Success' if all of it was received.
          */
-        Socket::Status receive_handshake(Http &message)
+        Socket::Status receive_handshake(Http &message, std::chrono::steady_clock::time_point deadline = std::chrono::steady_clock::time_point::max())
         {
             Socket::Status status;
             do
             {
+                if(std::chrono::steady_clock::now() >= deadline)
+                    return Socket::Status::Timeout;
                 char byte;
                 size_t received = 0;
                 status = SocketType::receive_raw(&byte, sizeof(byte), received);
-- 
2.43.0


From cd6c07ab061deefd12d9943cac5d754d3395e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 58/63] fix: ports past 65535 reach some other port

---
 include/frnetlib/NetworkEncoding.h | 9 +++++++++
 src/TcpListener.cpp                | 2 +-
 src/TcpSocket.cpp                  | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 23ece3f..03ce15a 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -5,6 +5,7 @@
 #ifndef FRNETLIB_NETWORKENCODING_H
 #define FRNETLIB_NETWORKENCODING_H
 
+#include <cstdlib>
 #include <cstring>
 #include <string>
 #include <cstdint>
@@ -123,6 +124,14 @@ inline bool set_unix_socket_blocking(int32_t socket_descriptor, bool is_blocking
     return true;
 }
 
+//getaddrinfo() takes numeric ports modulo 65536, which would be some other port
+inline bool is_port_out_of_range(const std::string &port)
+{
+    char *end = nullptr;
+    unsigned long value = std::strtoul(port.c_str(), &end, 10);
+    return *end == '\0' && value > 65535;
+}
+
 inline static void init_wsa()
 {
 #ifdef _WIN32
diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index 52134a6..9713a6b 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -45,7 +45,7 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
-        if(getaddrinfo(nullptr, port.c_str(), &hints, &info) != 0)
+        if(is_port_out_of_range(port) || getaddrinfo(nullptr, port.c_str(), &hints, &info) != 0)
         {
             return Socket::Status::AddressLookupFailure;
         }
diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index ba51dae..107a009 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -142,6 +142,11 @@ namespace fr
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
         //Query remote address information
+        if(is_port_out_of_range(port))
+        {
+            errno = EAI_SERVICE;
+            return Socket::Status::AddressLookupFailure;
+        }
         if((ret = getaddrinfo(address.c_str(), port.c_str(), &hints, &info)) != 0)
         {
             errno = ret;
-- 
2.43.0


From 1c859353829377a819861cab09633708d9445c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 59/63] fix: TLS connects to servers which trickle their
 handshake ignore the timeout

---
 src/SSLSocket.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 9f882df..e1af218 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -8,6 +8,9 @@
 #include <limits>
 #include <memory>
 #include <utility>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 
 #include <mbedtls/net_sockets.h>
 #include <frnetlib/SSLSocket.h>
@@ -203,20 +206,38 @@ namespace fr
         const int64_t max_wait = timeout.count() <= 0 ? DEFAULT_HANDSHAKE_TIMEOUT : std::min<int64_t>(timeout.count(), std::numeric_limits<int>::max());
         const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(max_wait);
 #ifndef _WIN32
-        struct timeval tv = {};
-        tv.tv_sec = max_wait;
-        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
-        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof(tv));
+        //Wait in poll rather than in read, as each byte which arrives would be allowed the whole timeout otherwise
+        if((error = mbedtls_net_set_nonblock(ssl_socket_descriptor.get())) != 0)
+        {
+            close_socket();
+            errno = error;
+            return Socket::Status::SSLError;
+        }
 #endif
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
         {
-            if((error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE) || std::chrono::steady_clock::now() >= deadline)
+            const auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(deadline - std::chrono::steady_clock::now()).count();
+            if((error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE) || remaining <= 0)
             {
                 close_socket();
                 errno = error;
                 return Socket::Status::SSLError;
             }
+#ifndef _WIN32
+            pollfd event = {};
+            event.fd = get_socket_descriptor();
+            event.events = error == MBEDTLS_ERR_SSL_WANT_READ ? POLLIN : POLLOUT;
+            poll(&event, 1, static_cast<int>(std::min<int64_t>(remaining, std::numeric_limits<int>::max())));
+#endif
         }
+#ifndef _WIN32
+        if((error = mbedtls_net_set_block(ssl_socket_descriptor.get())) != 0)
+        {
+            close_socket();
+            errno = error;
+            return Socket::Status::SSLError;
+        }
+#endif
 
         //Verify server certificate
         if(should_verify)
-- 
2.43.0


From f4e5ef4150a176968cb8ea61fd796aec89bd68c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 60/63] fix: SSL listeners whose certificate or key can't be
 loaded leak what had been

---
 src/SSLListener.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 51796b0..516f7dc 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -26,25 +26,34 @@ namespace fr
 
         int error = 0;
 
+        //The destructor isn't going to be called if this throws
+        auto fail = [this](const std::string &reason)
+        {
+            mbedtls_x509_crt_free(&srvcert);
+            mbedtls_pk_free(&pkey);
+            mbedtls_ssl_config_free(&conf);
+            throw std::runtime_error(reason);
+        };
+
         //Load public key
         error = mbedtls_x509_crt_parse_file(&srvcert, pem_path.c_str());
         if(error != 0)
         {
-            throw std::runtime_error("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
+            fail("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
         }
 
         //Load private key
         error = mbedtls_pk_parse_keyfile(&pkey, private_key_path.c_str(), 0);
         if(error != 0)
         {
-            throw std::runtime_error("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
+            fail("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
         }
 
         //Setup data structures and apply settings
         error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
         if(error != 0)
         {
-            throw std::runtime_error("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
+            fail("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
         }
         mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &ssl_context->ctr_drbg);
         mbedtls_ssl_conf_ca_chain(&conf, srvcert.next, nullptr);
-- 
2.43.0


From 3480b67f7243ca6eb417a69bd2e95b6e17993dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 61/63] fix: TLS connects close a descriptor twice if storing
 the remote address throws

---
 src/SSLSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index e1af218..3ad1315 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -168,8 +168,8 @@ namespace fr
                 close_socket();
                 return ret;
             }
-            ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
+            ssl_socket_descriptor->fd = socket.get_socket_descriptor(); //It mustn't have two owners if anything throws
             socket.set_descriptor(nullptr);
         }
 
-- 
2.43.0


From e31937ea886b4562182c0d2ceb7b9d6243b18615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 62/63] fix: SSL listeners leak what had been loaded if
 composing the error throws

---
 src/SSLListener.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 516f7dc..c122415 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -26,34 +26,36 @@ namespace fr
 
         int error = 0;
 
-        //The destructor isn't going to be called if this throws
-        auto fail = [this](const std::string &reason)
+        //The destructor isn't going to be called if this throws, composing what to throw included
+        auto release = [this]()
         {
             mbedtls_x509_crt_free(&srvcert);
             mbedtls_pk_free(&pkey);
             mbedtls_ssl_config_free(&conf);
-            throw std::runtime_error(reason);
         };
 
         //Load public key
         error = mbedtls_x509_crt_parse_file(&srvcert, pem_path.c_str());
         if(error != 0)
         {
-            fail("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
+            release();
+            throw std::runtime_error("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
         }
 
         //Load private key
         error = mbedtls_pk_parse_keyfile(&pkey, private_key_path.c_str(), 0);
         if(error != 0)
         {
-            fail("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
+            release();
+            throw std::runtime_error("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
         }
 
         //Setup data structures and apply settings
         error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
         if(error != 0)
         {
-            fail("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
+            release();
+            throw std::runtime_error("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
         }
         mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &ssl_context->ctr_drbg);
         mbedtls_ssl_conf_ca_chain(&conf, srvcert.next, nullptr);
-- 
2.43.0


From 57a59b64197b5a8b1390c6ed39349bfd235ec003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 63/63] fix: SSL listeners which can't use their certificate
 are created without one

---
 src/SSLListener.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index c122415..f9fba52 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -64,8 +64,8 @@ namespace fr
         error = mbedtls_ssl_conf_own_cert(&conf, &srvcert, &pkey);
         if(error != 0)
         {
-            std::cout << "Failed to set certificate: " << error << std::endl;
-            return;
+            release();
+            throw std::runtime_error("mbedtls_ssl_conf_own_cert() returned: " + std::to_string(error));
         }
     }
 
-- 
2.43.0

