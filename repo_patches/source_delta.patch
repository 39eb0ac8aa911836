From 684d2f39d5a7d57017c1707fdbd6ef112b3f927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 01/44] fix: accept continuation frames in the web socket frame
 header parser

Opcode 0 was rejected as unsupported, so every fragmented message (also the
ones ServerConnection itself streams) terminated the session.
---
 include/crab/http/web_message_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index 75cf882..988cd28 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -46,6 +46,7 @@ public:
 
 	static bool is_opcode_supported(int opcode) {
 		switch (opcode) {
+		case 0:  // continuation of fragmented message
 		case static_cast<int>(WebMessageOpcode::TEXT):
 		case static_cast<int>(WebMessageOpcode::BINARY):
 		case static_cast<int>(WebMessageOpcode::CLOSE):
-- 
2.43.0


From 801b0c34c4bf2b44ddadadc9b7a6bdcbad1134a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 02/44] fix: no shift by the full width of the type in rol

rol(mask, 0) shifted right by sizeof(T) * 8, which is undefined; unmasking a
web socket body does this at every position divisible by 4.
---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index eba7d1f..552e344 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -169,7 +169,7 @@ inline bool is_valid_utf8(const std::string &str) { return is_valid_utf8(uint8_c
 template<typename T>
 T rol(T mask, size_t shift) {
 	shift = shift & (sizeof(T) * 8 - 1);
-	return (mask << shift) | (mask >> (sizeof(T) * 8 - shift));
+	return (mask << shift) | (mask >> ((sizeof(T) * 8 - shift) & (sizeof(T) * 8 - 1)));
 }
 
 namespace details {
-- 
2.43.0


From 9df7cd343c9bebc77e346750dcc3743773bcdba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:32 +0000
Subject: [PATCH 03/44] fix: integer_cast from floating point rejects NaN and
 values rounded up past the largest integer

---
 include/crab/integer_cast.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/crab/integer_cast.hpp b/include/crab/integer_cast.hpp
index dffc7ca..7dff480 100644
--- a/include/crab/integer_cast.hpp
+++ b/include/crab/integer_cast.hpp
@@ -184,9 +184,11 @@ inline T integer_cast_is_integral(const char *arg, std::false_type, std::false_t
 
 template<typename T, typename S>  // source floating point
 inline T integer_cast_is_integral(const S &arg, std::false_type, std::true_type) {
-	if (arg > std::numeric_limits<T>::max())
+	// max() might be not representable in S and then is rounded up, while max() + 1 and min() are always exact
+	constexpr S too_large = static_cast<S>(std::numeric_limits<T>::max() / 2 + 1) * 2;
+	if (!(arg >= std::numeric_limits<T>::min()))  // also for NaN
 		throw_out_of_range<T>(arg);
-	if (arg < std::numeric_limits<T>::min())
+	if (arg > std::numeric_limits<T>::max() || arg >= too_large)
 		throw_out_of_range<T>(arg);
 	return static_cast<T>(arg);
 }
-- 
2.43.0


From 0400c651806dd797db3140ded9d99b80a1e0e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 04/44] fix: IMemoryStream::write_to keeps the bytes the sink
 did not take

---
 include/crab/streams.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/streams.hxx b/include/crab/streams.hxx
index 8dc83ae..8929942 100644
--- a/include/crab/streams.hxx
+++ b/include/crab/streams.hxx
@@ -202,7 +202,7 @@ CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {
 			break;
 		size_t count = out.write_some(data, rc);
 		data += count;
-		si -= rc;
+		si -= count;
 		max_count -= count;
 		total_count += count;
 		if (count == 0)
-- 
2.43.0


From 56ec63564ed347ceb2d27c50ba25780e556539b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 05/44] fix: CombinedIStream::write_to counts the bytes taken
 from the first stream

---
 include/crab/streams.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/streams.hpp b/include/crab/streams.hpp
index 1c35ca8..3bd069f 100644
--- a/include/crab/streams.hpp
+++ b/include/crab/streams.hpp
@@ -295,13 +295,14 @@ public:
 	}
 	using IStream::read_some;
 	size_t write_to(OStream &out, size_t max_count) override {
+		size_t count = 0;
 		if (!a->empty()) {
-			size_t count = a->write_to(out, max_count);
+			count = a->write_to(out, max_count);
 			max_count -= count;
 			if (!a->empty())
 				return count;
 		}
-		return b->write_to(out, max_count);
+		return count + b->write_to(out, max_count);
 	}
 	using IFiniteStream::write_to;
 };
-- 
2.43.0


From bc46b841060a3e67d36556cac3f8d4767133055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 06/44] fix: url_encode encodes the characters which RFC 3986
 never allows in URI

---
 include/crab/http/types.hxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 2111b47..f37744d 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -115,6 +115,17 @@ CRAB_INLINE bool is_uri_reserved(int c) {
 	if (!is_char(c) || is_ctl(c) || is_sp(c))
 		return true;
 	switch (c) {
+	// Not reserved, but never allowed in URI unencoded
+	case '"':
+	case '<':
+	case '>':
+	case '\\':
+	case '^':
+	case '`':
+	case '{':
+	case '|':
+	case '}':
+	// Fall through to reserved
 	case '!':
 	case '#':
 	case '$':
-- 
2.43.0


From 605e935eb70fcb35d5f0d25124ad26780324c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 07/44] fix: query parser ends the pair at '&' also right after
 an incomplete percent escape

---
 include/crab/http/query_parser.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 0500109..8511ba7 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -87,6 +87,11 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			key_.push_back(input);
 		return KEY;
 	case KEY_PERCENT1: {
+		if (input == '&') {
+			key_.push_back('%');
+			persist_pair();
+			return KEY;
+		}
 		if (input == '=') {
 			key_.push_back('%');
 			return VALUE;
@@ -101,6 +106,12 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		return KEY_PERCENT2;
 	}
 	case KEY_PERCENT2: {
+		if (input == '&') {
+			key_.push_back('%');
+			key_.push_back(percent1_hex_sym);
+			persist_pair();
+			return KEY;
+		}
 		if (input == '=') {
 			key_.push_back('%');
 			key_.push_back(percent1_hex_sym);
@@ -130,6 +141,7 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 	case VALUE_PERCENT1: {
 		if (input == '&') {
 			value_.push_back('%');
+			persist_pair();
 			return KEY;
 		}
 		int digit1 = from_hex_digit(input);
@@ -142,10 +154,11 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		return VALUE_PERCENT2;
 	}
 	case VALUE_PERCENT2: {
-		if (input == '=') {
+		if (input == '&') {
 			value_.push_back('%');
 			value_.push_back(percent1_hex_sym);
-			return VALUE;
+			persist_pair();
+			return KEY;
 		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
-- 
2.43.0


From f79ec00b6002d9f173fa1db8dc3948ed0f402554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 08/44] fix: URI parser ends the authority at '?'

---
 include/crab/http/query_parser.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 8511ba7..5a6bc4c 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -280,6 +280,8 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			throw std::runtime_error{"Invalid URI parser state: '//' expected after scheme"};
 		return HOST;
 	case HOST:
+		if (input == '?')
+			return QUERY;
 		if (input == '@') {
 			if (user_info_assigned)
 				throw std::runtime_error{"URI parser - second @ is prohibited"};
@@ -295,6 +297,8 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		uri.host.push_back(input);
 		return HOST;
 	case PORT:
+		if (input == '?')
+			return QUERY;
 		if (input == '@') {
 			if (user_info_assigned)
 				throw std::runtime_error{"URI parser - second @ is prohibited"};
-- 
2.43.0


From bfa24de9182b91085156be08ec614633bd430c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 09/44] fix: URI parser removes dot segments also at the end of
 the path and next to an encoded '/'

---
 include/crab/http/query_parser.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 5a6bc4c..6732ddd 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -347,8 +347,13 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			cur_path_.push_back('%');
 			cur_path_.push_back(percent1_hex_sym);
 			cur_path_.push_back(input);
-		} else
-			cur_path_.push_back(static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2)));
+			return PATH;
+		}
+		char decoded = static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+		if (decoded == '/')
+			persist_path_component();  // uri.path is decoded, so this will be the same separator
+		else
+			cur_path_.push_back(decoded);
 		return PATH;
 	}
 	case QUERY:
@@ -369,6 +374,9 @@ CRAB_INLINE URIParser::State URIParser::consume_end() {
 		state = PATH;
 	}
 
+	if (cur_path_ == string_view{"."} || cur_path_ == string_view{".."})
+		persist_path_component();  // leaves empty last component, so path ends with '/'
+
 	for (auto &&pc : path_components_)
 		uri.path.append('/' + pc);
 	uri.path.append('/' + cur_path_);
-- 
2.43.0


From d48d1707f1a02bb206795b9dcf0df22c0ae7e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 10/44] fix: ResponseHeader::to_string writes the server field

---
 include/crab/http/types.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index f37744d..817a09c 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -243,6 +243,8 @@ CRAB_INLINE std::string ResponseHeader::to_string() const {
 	   << (status_text.empty() ? status_to_string(status) : status_text) << "\r\n";
 	if (!date.empty())
 		ss << "date: " << date << "\r\n";
+	if (!server.empty())
+		ss << "server: " << server << "\r\n";
 	details::to_string_common(*this, ss);
 	if (!sec_websocket_accept.empty())
 		ss << "sec-websocket-accept: " << sec_websocket_accept << "\r\n";
-- 
2.43.0


From d14616e25f23ed9c004633769eceab32f7a8fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 11/44] fix: request path is percent-encoded when sent, as
 documented, and by get_uri, which lost paths without query

---
 include/crab/http/types.hxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 817a09c..df41440 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -202,22 +202,25 @@ CRAB_INLINE bool RequestHeader::is_websocket_upgrade() const {
 
 CRAB_INLINE void RequestHeader::set_uri(const std::string &uri) {
 	auto pos = uri.find('?');
+	path = url_decode(uri.substr(0, pos));
 	if (pos == std::string::npos) {
-		path = uri;
+		query_string.clear();
 	} else {
-		path         = uri.substr(0, pos);
 		query_string = uri.substr(pos + 1);
 	}
 }
 
-CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? query_string : path + "?" + query_string; }
+CRAB_INLINE std::string RequestHeader::get_uri() const {
+	// "*" is special request target, https://tools.ietf.org/html/rfc7230#section-5.3.4
+	std::string result = (path == string_view{"*"}) ? path : url_encode(path, true);
+	if (!query_string.empty())
+		result += "?" + query_string;  // query_string must be already encoded
+	return result;
+}
 
 CRAB_INLINE std::string RequestHeader::to_string() const {
 	std::stringstream ss;
-	ss << method << " " << path;  // TODO - uri-encode path
-	if (!query_string.empty())
-		ss << "?" << query_string;  // query_string must be already encoded
-	ss << " HTTP/" << http_version_major << "." << http_version_minor << "\r\n";
+	ss << method << " " << get_uri() << " HTTP/" << http_version_major << "." << http_version_minor << "\r\n";
 	if (!host.empty())
 		ss << "host: " << host << "\r\n";
 	if (!origin.empty())
-- 
2.43.0


From 7585169c4f960c8aa0d7b0f2d62995ab227add87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 12/44] fix: request parser skips an empty line ending in a
 bare LF without accepting an empty method after it

---
 include/crab/http/request_parser.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 95b3fe8..fd7625e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -31,7 +31,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (input == '\r')
 			return METHOD_START_LF;
 		if (input == '\n')
-			return METHOD;
+			return METHOD_START;
 		if (!is_char(input) || is_ctl(input) || is_tspecial(input))
 			throw std::runtime_error{"Invalid character at method start"};
 		req.method.push_back(input);
-- 
2.43.0


From df1f2fb432e76b30756d70377add2af702179e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 13/44] fix: request parser accepts CR LF after spaces at the
 end of the request line, and one LF ends the line there

---
 include/crab/http/request_parser.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index fd7625e..1610740 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -157,9 +157,11 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 	case STATUS_LINE_CR:
 		if (is_sp(input))
 			return STATUS_LINE_CR;
+		if (input == '\r')
+			return STATUS_LINE_LF;
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-		return STATUS_LINE_LF;
+		return FIRST_HEADER_LINE_START;
 	case STATUS_LINE_LF:
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-- 
2.43.0


From ef1cd72d09d5df61815cfcc4eccfe5dff205870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 14/44] fix: major http version greater than 1 is unsupported
 also when it is a single digit

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 1610740..425798e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -126,6 +126,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca7559c..7057372 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -48,6 +48,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From 80ced4f68518d81ca9833ace7fb5731933f931e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 15/44] fix: chunked is required to be the last transfer
 coding, was required to be the first

---
 include/crab/http/request_parser.hxx  | 10 +++++-----
 include/crab/http/response_parser.hxx | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 425798e..5347694 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -265,15 +265,15 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	}
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
+		if (header.value == string_view{"identity"}) {
+			return;  // like chunked, it is transparent to user
+		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
-		if (header.value == string_view{"identity"}) {
-			return;  // like chunked, it is transparent to user
-		}
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 7057372..ca09022 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -218,15 +218,15 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	}
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
+		if (header.value == string_view{"identity"}) {
+			return;  // like chunked, it is transparent to user
+		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
-		if (header.value == string_view{"identity"}) {
-			return;  // like chunked, it is transparent to user
-		}
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From cc42ca9be9ba47daa5d56524eb2ab0ea4f791b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 16/44] fix: header value which starts on a continuation line
 is not prefixed by white space, so is recognised

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 5347694..09496c0 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -181,6 +181,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		return HEADER_NAME;
 	case HEADER_LINE_START:
 		if (is_sp(input)) {
+			if (header.value.empty())
+				return SPACE_BEFORE_HEADER_VALUE;  // value starts on continuation line
 			header.value.push_back(input);
 			return HEADER_VALUE;  // value continuation
 		}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca09022..862d6e6 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -133,6 +133,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		return HEADER_NAME;
 	case HEADER_LINE_START:
 		if (is_sp(input)) {
+			if (header.value.empty())
+				return SPACE_BEFORE_HEADER_VALUE;  // value starts on continuation line
 			header.value.push_back(input);
 			return HEADER_VALUE;  // value continuation
 		}
-- 
2.43.0


From 55fb7bc45c550912eca07f0ef1fadb1e1cc05061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 17/44] fix: message with transfer codings not followed by
 chunked is rejected, was taken for a message without body

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 09496c0..ada1ce4 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -189,6 +189,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		process_ready_header();
 		header.name.clear();
 		header.value.clear();
+		if ((input == '\r' || input == '\n') && !req.transfer_encodings.empty() && !req.transfer_encoding_chunked)
+			throw std::runtime_error{"Transfer encodings without chunked give no body length"};
 		if (input == '\r')
 			return FINAL_LF;
 		if (input == '\n')
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 862d6e6..0677991 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -141,6 +141,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		process_ready_header();
 		header.name.clear();
 		header.value.clear();
+		if ((input == '\r' || input == '\n') && !req.transfer_encodings.empty() && !req.transfer_encoding_chunked)
+			throw std::runtime_error{"Transfer encodings without chunked give no body length"};
 		if (input == '\r')
 			return FINAL_LF;
 		if (input == '\n')
-- 
2.43.0


From 687482cd6ac4a052bd86fecd707602df9615787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 18/44] fix: content length with a plus sign is rejected

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index ada1ce4..f024148 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -260,6 +260,8 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (header.value.empty() || !isdigit(header.value.front()))
+			throw std::runtime_error{"Content length is not a number"};  // sign is not allowed
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 0677991..103267a 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -213,6 +213,8 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (header.value.empty() || !isdigit(header.value.front()))
+			throw std::runtime_error{"Content length is not a number"};  // sign is not allowed
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
-- 
2.43.0


From e5d8119b278f896aea1aeab1a69e4237cadeee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 19/44] fix: URI and query parsers treat the character after an
 incomplete percent escape as usual (separator, plus or another escape)

---
 include/crab/http/query_parser.hxx | 88 ++++++++----------------------
 1 file changed, 22 insertions(+), 66 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 6732ddd..ef36158 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -86,44 +86,23 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		else
 			key_.push_back(input);
 		return KEY;
-	case KEY_PERCENT1: {
-		if (input == '&') {
-			key_.push_back('%');
-			persist_pair();
-			return KEY;
-		}
-		if (input == '=') {
-			key_.push_back('%');
-			return VALUE;
-		}
-		int digit1 = from_hex_digit(input);
-		if (digit1 < 0) {
+	case KEY_PERCENT1:
+		if (from_hex_digit(input) < 0) {
 			key_.push_back('%');
-			key_.push_back(input);
-			return KEY;
+			state = KEY;
+			return consume(input);  // can be separator or start of another escape
 		}
 		percent1_hex_sym = input;
 		return KEY_PERCENT2;
-	}
 	case KEY_PERCENT2: {
-		if (input == '&') {
-			key_.push_back('%');
-			key_.push_back(percent1_hex_sym);
-			persist_pair();
-			return KEY;
-		}
-		if (input == '=') {
-			key_.push_back('%');
-			key_.push_back(percent1_hex_sym);
-			return VALUE;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			key_.push_back('%');
 			key_.push_back(percent1_hex_sym);
-			key_.push_back(input);
-		} else
-			key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = KEY;
+			return consume(input);
+		}
+		key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return KEY;
 	}
 	case VALUE:
@@ -138,35 +117,23 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		else
 			value_.push_back(input);
 		return VALUE;
-	case VALUE_PERCENT1: {
-		if (input == '&') {
-			value_.push_back('%');
-			persist_pair();
-			return KEY;
-		}
-		int digit1 = from_hex_digit(input);
-		if (digit1 < 0) {
+	case VALUE_PERCENT1:
+		if (from_hex_digit(input) < 0) {
 			value_.push_back('%');
-			value_.push_back(input);
-			return VALUE;
+			state = VALUE;
+			return consume(input);  // can be separator or start of another escape
 		}
 		percent1_hex_sym = input;
 		return VALUE_PERCENT2;
-	}
 	case VALUE_PERCENT2: {
-		if (input == '&') {
-			value_.push_back('%');
-			value_.push_back(percent1_hex_sym);
-			persist_pair();
-			return KEY;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			value_.push_back('%');
 			value_.push_back(percent1_hex_sym);
-			value_.push_back(input);
-		} else
-			value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = VALUE;
+			return consume(input);
+		}
+		value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return VALUE;
 	}
 	default:
@@ -322,32 +289,21 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		else
 			cur_path_.push_back(input);
 		return PATH;
-	case PATH_HEX1: {
-		if (input == '?') {
+	case PATH_HEX1:
+		if (from_hex_digit(input) < 0) {
 			cur_path_.push_back('%');
-			return QUERY;
-		}
-		int digit1 = from_hex_digit(input);
-		if (digit1 < 0) {
-			cur_path_.push_back('%');
-			cur_path_.push_back(input);
-			return PATH;
+			state = PATH;
+			return consume(input);  // can be separator or start of another escape
 		}
 		percent1_hex_sym = input;
 		return PATH_HEX2;
-	}
 	case PATH_HEX2: {
-		if (input == '?') {
-			cur_path_.push_back('%');
-			cur_path_.push_back(percent1_hex_sym);
-			return QUERY;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			cur_path_.push_back('%');
 			cur_path_.push_back(percent1_hex_sym);
-			cur_path_.push_back(input);
-			return PATH;
+			state = PATH;
+			return consume(input);
 		}
 		char decoded = static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		if (decoded == '/')
-- 
2.43.0


From 18226431cfd9463f7ab8cde96cfe7b7cccc6d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:48 +0000
Subject: [PATCH 20/44] fix: trailer line of a chunked body can end in a bare
 LF, as all other lines

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index f024148..ebac06b 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -459,6 +459,8 @@ CRAB_INLINE BodyParser::State BodyParser::consume(uint8_t input) {
 		trailers_total_length += 1;
 		if (input == '\r')
 			return TRAILER_LF;
+		if (input == '\n')
+			return TRAILER_LINE_START;
 		return TRAILER;
 	case TRAILER_LF:
 		trailers_total_length += 1;
-- 
2.43.0


From 266287318042aab07a25246040b2fde4bf65c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 21/44] fix: pipelined requests (and web socket messages) that
 arrived while response was written are processed without waiting for new data

---
 include/crab/http/connection.hpp |  3 +++
 include/crab/http/connection.hxx | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index ce6bf99..bed0ae4 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -213,11 +213,14 @@ protected:
 	// Server-side ping required for some NATs to keep port open
 	// TCP keep-alive is set by most browsers, but surprisingly it is not enough.
 	// We reset this timer on write() only
+	Timer advance_timer;
+	// Requests and messages, which arrived while we were busy, are processed without waiting for new data
 
 	optional<uint64_t> remaining_body_content_length;  // empty for chunked
 
 	void sock_handler();
 	void on_wm_ping_timer();
+	void on_advance_timer();
 	bool advance_state();
 
 	Handler rwd_handler;
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ca3b7e8..fd695ad 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -425,6 +425,7 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 CRAB_INLINE ServerConnection::ServerConnection(Handler &&rwd_handler)
     : read_buffer(8192)
     , wm_ping_timer([&]() { on_wm_ping_timer(); })
+    , advance_timer([&]() { on_advance_timer(); })
     , rwd_handler(std::move(rwd_handler))
     , sock([this]() { sock_handler(); }) {}
 
@@ -438,6 +439,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
+	advance_timer.cancel();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
@@ -494,6 +496,7 @@ CRAB_INLINE void ServerConnection::web_socket_upgrade() {
 	wm_body_parser   = WebMessageBodyParser{};
 	state            = WEB_MESSAGE_HEADER;
 	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);  // Always server-side
+	advance_timer.once(0);
 }
 
 CRAB_INLINE void ServerConnection::write(Response &&resp) {
@@ -592,6 +595,7 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			advance_timer.once(0);
 		}
 		return;
 	}
@@ -628,6 +632,7 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			advance_timer.once(0);
 		}
 		return;
 	}
@@ -649,6 +654,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 		if (bo == BufferOptions::WRITE)
 			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
 		writing_web_message_body = false;
+		advance_timer.once(0);
 		return;
 	}
 	invariant(state == RESPONSE_BODY, "Connection unexpected write");
@@ -660,6 +666,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 	}
 	request_parser = RequestParser{};
 	state          = REQUEST_HEADER;
+	advance_timer.once(0);
 }
 
 CRAB_INLINE void ServerConnection::sock_handler() {
@@ -678,6 +685,11 @@ CRAB_INLINE void ServerConnection::sock_handler() {
 		rwd_handler();
 }
 
+CRAB_INLINE void ServerConnection::on_advance_timer() {
+	if (!is_writing_body() && advance_state())
+		rwd_handler();
+}
+
 CRAB_INLINE void ServerConnection::on_wm_ping_timer() {
 	if (sock.get_total_buffer_size() != 0)
 		sock.write(std::string{});  // Flushing buffer is enough
-- 
2.43.0


From 0570408a90c386d43127c6921ce3c7b643549e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 22/44] fix: ErrorAuthorization in request handler is answered
 with 401 instead of terminating the run loop

---
 include/crab/http/server.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f557ace..9e7f856 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -164,10 +164,13 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 		if (r_handler)
 			r_handler(who, std::move(request));
 	} catch (const ErrorAuthorization &ex) {
-		Response response;
-		response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
-		response.header.status = 401;
-		who->write(std::move(response));
+		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
+			Response response;
+			response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
+			response.header.status = 401;
+			response.set_body(std::string{});  // Content-length is required
+			who->write(std::move(response));
+		}
 		return;
 	} catch (const std::exception &ex) {
 		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
-- 
2.43.0


From e60fe86cb53cc955b9a7660af7560bddda73c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:15 +0000
Subject: [PATCH 23/44] fix: web socket message that arrived during streaming
 is delivered after streaming is finished outside of handlers

---
 include/crab/http/connection.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index fd695ad..21bfdf9 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -686,7 +686,9 @@ CRAB_INLINE void ServerConnection::sock_handler() {
 }
 
 CRAB_INLINE void ServerConnection::on_advance_timer() {
-	if (!is_writing_body() && advance_state())
+	if (is_writing_body())
+		return;
+	if (state == WEB_MESSAGE_READY || advance_state())  // Message could not be read during streaming
 		rwd_handler();
 }
 
-- 
2.43.0


From 79cfee396ead506490c830f1bb3668a602bed083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 24/44] fix: web socket handler which throws on CLOSE is not
 called with second CLOSE at disconnect

---
 include/crab/http/server.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 9e7f856..0daf1ab 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -185,17 +185,17 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 }
 
 CRAB_INLINE void Server::on_client_handle_message(Client *who, WebMessage &&message) {
+	const auto opcode = message.opcode;
 	try {
-		auto opcode = message.opcode;
 		if (who->ws_handler)
 			who->ws_handler(std::move(message));
-		if (opcode == WebMessageOpcode::CLOSE)
-			who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect
 	} catch (const std::exception &ex) {
 		std::cout << "HTTP socket request leads to throw/catch, what=" << ex.what() << std::endl;
 		who->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_ERROR});
 		// TODO - hope we do not leak security messages there
 	}
+	if (opcode == WebMessageOpcode::CLOSE)
+		who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect
 }
 
 }}  // namespace crab::http
-- 
2.43.0


From c5218286c84114b57d2acdb37aac6cc7113597e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:07 +0000
Subject: [PATCH 25/44] fix: unfinished web socket message does not survive
 close of connection, so next session is not broken

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 21bfdf9..7090a1b 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -171,6 +171,7 @@ CRAB_INLINE void ClientConnection::close() {
 	read_buffer.clear();
 	dns.cancel();
 	waiting_request.reset();
+	web_message.reset();
 	sock.close();
 	peer_address = Address();
 	protocol.clear();
@@ -440,6 +441,7 @@ CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
 	advance_timer.cancel();
+	web_message.reset();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
-- 
2.43.0


From e402023b5037df8a7ff8f454d2b8f1e722514ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 26/44] fix: get_body_position counts strings written to
 streamed body

---
 include/crab/http/server.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 0daf1ab..877167b 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -46,8 +46,9 @@ CRAB_INLINE void Client::write(const uint8_t *val, size_t count, BufferOptions b
 }
 
 CRAB_INLINE void Client::write(std::string &&ss, BufferOptions buffer_options) {
+	const auto count = ss.size();  // ss is moved from below
 	ServerConnection::write(std::move(ss), buffer_options);
-	body_position += ss.size();
+	body_position += count;
 	if (!is_writing_body()) {
 		rwd_handler = nullptr;
 	}
-- 
2.43.0


From 739d7050af991afb72ece9e98cc2e70170c57df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 27/44] fix: handler that finishes streamed body is not
 destroyed while it is running

---
 include/crab/http/server.hpp |  2 ++
 include/crab/http/server.hxx | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/server.hpp b/include/crab/http/server.hpp
index 31a6491..bd9a858 100644
--- a/include/crab/http/server.hpp
+++ b/include/crab/http/server.hpp
@@ -77,6 +77,8 @@ private:
 	Handler d_handler;
 	Handler rwd_handler;
 
+	void call_rwd_handler();
+
 	uint64_t body_position      = 0;
 	bool web_message_close_sent = false;
 	friend class Server;
diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 877167b..d8ce783 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -71,6 +71,15 @@ CRAB_INLINE void Client::postpone_response(Handler &&cb) {
 	d_handler = std::move(cb);
 }
 
+CRAB_INLINE void Client::call_rwd_handler() {
+	// When body is finished, rwd_handler is reset, often by the handler itself, which must not be destroyed while running
+	Handler handler = std::move(rwd_handler);
+	rwd_handler     = nullptr;
+	handler();
+	if (!rwd_handler && is_writing_body())
+		rwd_handler = std::move(handler);
+}
+
 CRAB_INLINE void Client::start_write_stream(ResponseHeader &response, Handler &&cb) {
 	if (response.date.empty())
 		response.date = Server::get_date();  // We avoid pointer to server
@@ -80,14 +89,14 @@ CRAB_INLINE void Client::start_write_stream(ResponseHeader &response, Handler &&
 	d_handler     = nullptr;
 	rwd_handler   = std::move(cb);
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 }
 
 CRAB_INLINE void Client::start_write_stream(WebMessageOpcode opcode, Handler &&scb) {
 	ServerConnection::write(opcode);
 	rwd_handler   = std::move(scb);
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 }
 
 CRAB_INLINE Server::Server(const Address &address, const Settings &settings)
@@ -123,7 +132,7 @@ CRAB_INLINE void Server::on_client_handler(std::list<Client>::iterator it) {
 	WebMessage message;
 	Request request;
 	if (who->rwd_handler)
-		who->rwd_handler();
+		who->call_rwd_handler();
 	while (true) {
 		if (who->read_next(message)) {
 			on_client_handle_message(who, std::move(message));
-- 
2.43.0


From bace71da0f31f6b29b559d3f5ea6ce95fbdbd62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 28/44] fix: streamed response with content-length 0 is
 complete immediately instead of blocking connection

---
 include/crab/http/server.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index d8ce783..e8e716d 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -87,8 +87,12 @@ CRAB_INLINE void Client::start_write_stream(ResponseHeader &response, Handler &&
 		response.server = "crab";
 	ServerConnection::write(response);
 	d_handler     = nullptr;
-	rwd_handler   = std::move(cb);
 	body_position = 0;
+	if (is_writing_body() && response.content_length && *response.content_length == 0) {
+		ServerConnection::write(std::string{});  // Nothing to stream, so response is already complete
+		return;
+	}
+	rwd_handler = std::move(cb);
 	call_rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 }
 
-- 
2.43.0


From e544b8a3ecabf828b53b51a5c2528a57a8ddb119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 29/44] fix: Address::parse of ip:port accepts IPv6 text and
 reports a bad port without an exception

---
 include/crab/network.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 8047475..d6d29f4 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -41,10 +41,15 @@ CRAB_INLINE Address::Address(const std::string &ip_port) {
 }
 
 CRAB_INLINE bool Address::parse(Address &address, const std::string &ip_port) {
-	size_t pos = ip_port.find(':');
+	size_t pos = ip_port.rfind(':');  // Text of IPv6 address contains colons
 	if (pos == std::string::npos)
 		return false;
-	auto port = integer_cast<uint16_t>(ip_port.substr(pos + 1));
+	uint16_t port = 0;
+	try {
+		port = integer_cast<uint16_t>(ip_port.substr(pos + 1));
+	} catch (const std::exception &) {
+		return false;
+	}
 	return parse(address, ip_port.substr(0, pos), port);
 }
 
-- 
2.43.0


From 9e10f49f079fcfd30acd1b82a1a9f18b2bab9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 30/44] fix: ClientRequestSimple does not reuse a connection
 the server announced to close

---
 include/crab/http/client_request.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/client_request.hxx b/include/crab/http/client_request.hxx
index 094235f..5e5a3d6 100644
--- a/include/crab/http/client_request.hxx
+++ b/include/crab/http/client_request.hxx
@@ -81,7 +81,10 @@ CRAB_INLINE void ClientRequestSimple::on_connection() {
 	if (!requesting)
 		return;  // Should not be possible
 	requesting = false;
-	timeout_timer.once(keep_connection_timeout_sec);
+	if (response.header.keep_alive)
+		timeout_timer.once(keep_connection_timeout_sec);
+	else
+		connection.close();  // Server will close it, next request needs new connection
 	r_handler(std::move(response));
 }
 
-- 
2.43.0


From 65cd17b95e913fc7c29721df3376547f8219481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 31/44] fix: data sent by server without request is not taken
 for the response to the next request

---
 include/crab/http/connection.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 7090a1b..2e86d26 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -412,7 +412,9 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 				}
 				state = WEB_MESSAGE_READY;
 				return true;
-			default:  // waiting write, closing, etc
+			case WAITING_WRITE_REQUEST:  // Must not be taken for the response to our next request
+				throw std::runtime_error{"Unsolicited data from server"};
+			default:  // closing, etc
 				return false;
 			}
 		}
@@ -787,7 +789,9 @@ CRAB_INLINE bool ServerConnection::advance_state() {
 				}
 				state = WEB_MESSAGE_READY;
 				return true;
-			default:  // waiting write, closing, etc
+			case WAITING_WRITE_REQUEST:  // Must not be taken for the response to our next request
+				throw std::runtime_error{"Unsolicited data from server"};
+			default:  // closing, etc
 				return false;
 			}
 		}
-- 
2.43.0


From 67b0b11398cd53070f2544f9cf6ec9f301618887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 32/44] fix: client does not wait for a body after the response
 to HEAD, 204 and 304

---
 include/crab/http/connection.hpp |  1 +
 include/crab/http/connection.hxx | 12 +++++++-----
 include/crab/http/types.hpp      |  1 +
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index bed0ae4..d728b87 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -127,6 +127,7 @@ protected:
 	WebMessageHeaderParser wm_header_parser;  // Chunk header
 	WebMessageBodyParser wm_body_parser;      // Chunk body
 	optional<WebMessage> web_message;         // Built from chunks
+	bool request_head = false;  // Response to HEAD never has body
 	std::string sec_websocket_key;
 
 	void dns_handler(const std::vector<Address> &names);
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 2e86d26..46175f5 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -218,6 +218,7 @@ CRAB_INLINE void ClientConnection::write(Request &&req) {
 	sock.write(std::move(req.body));
 
 	response_parser = ResponseParser{};
+	request_head    = req.header.method == "HEAD";
 	if (req.header.is_websocket_upgrade()) {
 		state             = WEB_UPGRADE_RESPONSE_HEADER;
 		sec_websocket_key = req.header.sec_websocket_key;
@@ -327,8 +328,11 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 					continue;
 				if (response_parser.req.is_websocket_upgrade())
 					throw std::runtime_error{"Unexpected web upgrade header"};
-				http_body_parser = BodyParser{response_parser.req.content_length, response_parser.req.transfer_encoding_chunked};
-				state            = RESPONSE_BODY;
+				if (request_head || !response_parser.req.can_have_body())  // Length, if present, is informational
+					http_body_parser = BodyParser{uint64_t{0}, false};
+				else
+					http_body_parser = BodyParser{response_parser.req.content_length, response_parser.req.transfer_encoding_chunked};
+				state = RESPONSE_BODY;
 				// Fall through (to correctly handle zero-length body). Next line is understood by GCC
 				// Fall through
 			case RESPONSE_BODY:
@@ -789,9 +793,7 @@ CRAB_INLINE bool ServerConnection::advance_state() {
 				}
 				state = WEB_MESSAGE_READY;
 				return true;
-			case WAITING_WRITE_REQUEST:  // Must not be taken for the response to our next request
-				throw std::runtime_error{"Unsolicited data from server"};
-			default:  // closing, etc
+			default:  // waiting write, closing, etc
 				return false;
 			}
 		}
diff --git a/include/crab/http/types.hpp b/include/crab/http/types.hpp
index f571c96..eec02f8 100644
--- a/include/crab/http/types.hpp
+++ b/include/crab/http/types.hpp
@@ -107,6 +107,7 @@ struct ResponseHeader : public RequestResponseHeader {
 	static std::string generate_sec_websocket_accept(const std::string &sec_websocket_key);
 
 	bool is_websocket_upgrade() const;
+	bool can_have_body() const { return status / 100 != 1 && status != 204 && status != 304; }
 
 	std::string date;
 	std::string server;
-- 
2.43.0


From a59af85a77f66ca17b21dcfab4cd1a187a9b850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 33/44] fix: client skips interim responses (100 Continue, etc)

---
 include/crab/http/connection.hxx | 4 ++++
 include/crab/http/types.hpp      | 1 +
 2 files changed, 5 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 46175f5..7d9fd3f 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -328,6 +328,10 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 					continue;
 				if (response_parser.req.is_websocket_upgrade())
 					throw std::runtime_error{"Unexpected web upgrade header"};
+				if (response_parser.req.is_interim()) {  // Final response follows
+					response_parser = ResponseParser{};
+					continue;
+				}
 				if (request_head || !response_parser.req.can_have_body())  // Length, if present, is informational
 					http_body_parser = BodyParser{uint64_t{0}, false};
 				else
diff --git a/include/crab/http/types.hpp b/include/crab/http/types.hpp
index eec02f8..1ede9c7 100644
--- a/include/crab/http/types.hpp
+++ b/include/crab/http/types.hpp
@@ -107,6 +107,7 @@ struct ResponseHeader : public RequestResponseHeader {
 	static std::string generate_sec_websocket_accept(const std::string &sec_websocket_key);
 
 	bool is_websocket_upgrade() const;
+	bool is_interim() const { return status / 100 == 1 && status != 101; }  // final response follows
 	bool can_have_body() const { return status / 100 != 1 && status != 204 && status != 304; }
 
 	std::string date;
-- 
2.43.0


From b40a21b141efa1eaf5635be305a83357d030d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 34/44] fix: Watcher::call does not touch the watcher after its
 handler could have destroyed it

---
 include/crab/network.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index d6d29f4..60349ff 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -283,8 +283,9 @@ CRAB_INLINE Watcher::Watcher(Handler &&a_handler) : loop(RunLoop::current()), a_
 CRAB_INLINE Watcher::~Watcher() { cancel(); }
 
 CRAB_INLINE void Watcher::call() {
-	loop->links.call_watcher(this);
-	loop->wakeup();
+	const auto lo = loop;  // Our handler can destroy us as soon as links.mutex is released
+	lo->links.call_watcher(this);
+	lo->wakeup();
 }
 
 CRAB_INLINE void Watcher::cancel() {
-- 
2.43.0


From 7a40cdda678bcb5f81d4eb95f5954726683b67a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 35/44] fix: DNSResolver handler can start next resolve or
 destroy resolver while worker finishes

---
 include/crab/network.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 60349ff..5c8cf40 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -369,8 +369,14 @@ CRAB_INLINE DNSResolver::DNSResolver(DNS_handler &&handler)
     : ab(std::bind(&DNSResolver::on_handler, this)), dns_handler(std::move(handler)) {}
 
 CRAB_INLINE void DNSResolver::on_handler() {
+	std::vector<Address> result;  // Handler is free to call resolve() or destroy us
+	{
+		// Wait until worker finishes with us, it calls ab.call() under mutex
+		std::unique_lock<std::mutex> lock(details::DNSWorker::get_instance().dns_mutex);
+		result.swap(names);
+	}
 	resolving = false;
-	dns_handler(names);
+	dns_handler(result);
 }
 
 CRAB_INLINE void DNSResolver::resolve(const std::string &host_name, uint16_t port, bool ipv4, bool ipv6) {
-- 
2.43.0


From 05627bf72d14cce8f25d91f7f02d661330d21087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 36/44] fix: Random::double_value never returns 1.0

---
 include/crab/util.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/util.hxx b/include/crab/util.hxx
index 9b45a40..76bd0c9 100644
--- a/include/crab/util.hxx
+++ b/include/crab/util.hxx
@@ -176,7 +176,8 @@ CRAB_INLINE std::string Random::printable_string(size_t size) {
 
 CRAB_INLINE double Random::double_value() {
 	auto hipart = uint64_t(pcg32_random_r()) << 31U;  // leave top bit zero for faster ldexp() on some platforms
-	return ldexp(double(hipart ^ pcg32_random_r()), -63);
+	// 53 bits are converted exactly, more would be rounded, sometimes up to 1.0
+	return ldexp(double((hipart ^ pcg32_random_r()) >> 10U), -53);
 }
 
 CRAB_INLINE void memzero(void *data, size_t len) {
-- 
2.43.0


From f8d231e763b84f7968df51f913abd292993c7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 37/44] fix: string_view::substr does not lose the last
 character

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index 552e344..5a0a950 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -82,7 +82,7 @@ class string_view {
 public:
 	string_view() = default;
 	explicit string_view(const char *value) : d(value), s(std::strlen(value)) {}
-	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size - 1) {}
+	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size) {}
 
 	int compare(const char *value, size_t size) const { return (s == size) ? std::memcmp(d, value, s) : s > size ? 1 : -1; }
 	int compare(const std::string &b) const { return compare(b.data(), b.size()); }
-- 
2.43.0


From 2cc0828b0e857de6b5e011147818f8c6deca3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:44 +0000
Subject: [PATCH 38/44] fix: a chunked response with content-length set (as
 set_body does) was sent without chunks, and writing it threw

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 7d9fd3f..acc790a 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -534,6 +534,8 @@ CRAB_INLINE void ServerConnection::write(ResponseHeader &resp, BufferOptions bo)
 	resp.http_version_minor = request_parser.req.http_version_minor;
 	resp.keep_alive         = request_parser.req.keep_alive;
 
+	if (resp.transfer_encoding_chunked)
+		resp.content_length.reset();  // Chunks are sent below, they give body length instead
 	remaining_body_content_length = resp.content_length;
 	sock.write(resp.to_string(), bo);
 	state = RESPONSE_BODY;
-- 
2.43.0


From 6fa73568b1077036b2b0ae0389b45adf21e03d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:23 +0000
Subject: [PATCH 39/44] fix: a long close reason was cut in the middle of a
 UTF-8 character

---
 include/crab/http/connection.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index acc790a..472736d 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -16,10 +16,18 @@ CRAB_INLINE std::string web_message_create_close_body(const std::string &reason,
 		return result;
 	if (close_code < 1000)  // Spec is silent on what to do in this case
 		close_code = 1000;
-	result.reserve(2 + reason.size());
+	// Control frame body is limited to 125 bytes, reason must remain valid UTF-8 after truncation
+	// https://tools.ietf.org/html/rfc6455#section-5.5.1
+	size_t reason_size = reason.size();
+	if (reason_size > 123) {
+		reason_size = 123;
+		while (reason_size > 0 && (static_cast<uint8_t>(reason[reason_size]) & 0xC0) == 0x80)
+			reason_size -= 1;
+	}
+	result.reserve(2 + reason_size);
 	result.push_back(static_cast<char>(close_code >> 8));
 	result.push_back(static_cast<char>(close_code & 0xFF));
-	result += reason;
+	result.append(reason, 0, reason_size);
 	return result;
 }
 
-- 
2.43.0


From 190fe562197e4a8dc86e11491329cb4e727c8d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:23 +0000
Subject: [PATCH 40/44] fix: a datagram waiting behind a pending socket error
 was not noticed

---
 include/crab/network_posix.hxx | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index 0e3aa01..18dc5d3 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -143,12 +143,20 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 	// (while correct behaviour is reading, truncating to 0, returning EMSGSIZE).
 	// We protect clients semantic by reading into our own small buffer
 	uint8_t workaround_buffer[1];  // Uninitialized
-	ssize_t result = recvfrom(fd.get_value(),
-	    count ? data : workaround_buffer,
-	    count ? count : sizeof(workaround_buffer),
-	    details::CRAB_MSG_NOSIGNAL,
-	    in_addr.impl_get_sockaddr(),
-	    &in_len);
+	ssize_t result = -1;
+	// Pending socket error (for example, after ICMP report) is returned once in place of datagram, then cleared.
+	// Datagrams behind it will not wake us up any more, so we try again. If new error appears, it will wake us up.
+	for (int attempt = 0; attempt != 2; ++attempt) {
+		in_len = sizeof(sockaddr_storage);
+		result = recvfrom(fd.get_value(),
+		    count ? data : workaround_buffer,
+		    count ? count : sizeof(workaround_buffer),
+		    details::CRAB_MSG_NOSIGNAL,
+		    in_addr.impl_get_sockaddr(),
+		    &in_len);
+		if (result >= 0 || errno == EAGAIN || errno == EWOULDBLOCK || errno == EMSGSIZE)
+			break;
+	}
 	if (result > static_cast<ssize_t>(count))  // Can only happen when reading into workaround_buffer
 		result = static_cast<ssize_t>(count);
 	RunLoop::current()->stats.push_record("R(recvfrom)", fd.get_value(), int(result));
@@ -163,7 +171,7 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 		if (errno != EMSGSIZE) {
 			// Sometimes (for example during adding/removing network adapters), errors could be returned on Linux
 			// We will ignore all errors here, in hope they will disappear soon
-			// TODO - if we get here, we will not be woke up by epoll any more, so
+			// TODO - if we get here, error is persistent and we will not be woke up by epoll any more, so
 			// we need to classify all errors here, like in TCPAcceptor
 			return {};
 		}
-- 
2.43.0


From 1ae20d27aa195076e70db25962147cfbbc2c603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:32 +0000
Subject: [PATCH 41/44] fix: the response to HEAD was sent with its body, which
 the client takes for the next response

---
 include/crab/http/connection.hpp |  1 +
 include/crab/http/connection.hxx | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index d728b87..3ca0c92 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -218,6 +218,7 @@ protected:
 	// Requests and messages, which arrived while we were busy, are processed without waiting for new data
 
 	optional<uint64_t> remaining_body_content_length;  // empty for chunked
+	bool request_head = false;  // Response to HEAD never has body
 
 	void sock_handler();
 	void on_wm_ping_timer();
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 472736d..809a7ce 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -545,6 +545,7 @@ CRAB_INLINE void ServerConnection::write(ResponseHeader &resp, BufferOptions bo)
 	if (resp.transfer_encoding_chunked)
 		resp.content_length.reset();  // Chunks are sent below, they give body length instead
 	remaining_body_content_length = resp.content_length;
+	request_head                  = request_parser.req.method == "HEAD";  // Response has no body, whatever headers say
 	sock.write(resp.to_string(), bo);
 	state = RESPONSE_BODY;
 }
@@ -609,7 +610,7 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 	if (remaining_body_content_length) {
 		invariant(count <= *remaining_body_content_length, "Overshoot content-length");
 		*remaining_body_content_length -= count;
-		sock.write(val, count, bo);
+		sock.write(val, request_head ? 0 : count, bo);
 		if (*remaining_body_content_length == 0) {
 			if (!request_parser.req.keep_alive) {  // We sent it in our response header
 				read_buffer.clear();
@@ -623,6 +624,8 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 	}
 	if (count == 0)
 		return;  // Empty chunk is terminator
+	if (request_head)
+		return;
 	char buf[64]{};
 	int buf_n = std::sprintf(buf, "%llx\r\n", (unsigned long long)count);
 	invariant(buf_n > 0, "sprintf error (unexpected)");
@@ -646,6 +649,8 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 	if (remaining_body_content_length) {
 		invariant(ss.size() <= *remaining_body_content_length, "Overshoot content-length");
 		*remaining_body_content_length -= ss.size();
+		if (request_head)
+			ss.clear();
 		sock.write(std::move(ss), bo);
 		if (*remaining_body_content_length == 0) {
 			if (!request_parser.req.keep_alive) {  // We sent it in our response header
@@ -660,6 +665,8 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 	}
 	if (ss.empty())
 		return;  // Empty chunk is terminator
+	if (request_head)
+		return;
 	char buf[64]{};
 	int buf_n = std::sprintf(buf, "%llx\r\n", (unsigned long long)ss.size());
 	invariant(buf_n > 0, "sprintf error (unexpected)");
@@ -681,7 +688,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 	}
 	invariant(state == RESPONSE_BODY, "Connection unexpected write");
 	invariant(!remaining_body_content_length, "write_last_chunk is for chunked encoding only");
-	sock.write(std::string{"0\r\n\r\n"}, bo);
+	sock.write(request_head ? std::string{} : std::string{"0\r\n\r\n"}, bo);
 	if (!request_parser.req.keep_alive) {  // We sent it in our response header
 		read_buffer.clear();
 		sock.write_shutdown();
-- 
2.43.0


From 851b3fe9a601080ba99fe44c061d3a71b250bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:43 +0000
Subject: [PATCH 42/44] fix: a chunked response was sent to HTTP/1.0 clients,
 who know no chunks

---
 include/crab/http/connection.hpp |  3 ++-
 include/crab/http/connection.hxx | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index 3ca0c92..1018115 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -218,7 +218,8 @@ protected:
 	// Requests and messages, which arrived while we were busy, are processed without waiting for new data
 
 	optional<uint64_t> remaining_body_content_length;  // empty for chunked
-	bool request_head = false;  // Response to HEAD never has body
+	bool request_head     = false;  // Response to HEAD never has body
+	bool response_chunked = false;
 
 	void sock_handler();
 	void on_wm_ping_timer();
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 809a7ce..aab1a7a 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -544,6 +544,12 @@ CRAB_INLINE void ServerConnection::write(ResponseHeader &resp, BufferOptions bo)
 
 	if (resp.transfer_encoding_chunked)
 		resp.content_length.reset();  // Chunks are sent below, they give body length instead
+	response_chunked = resp.transfer_encoding_chunked && (resp.http_version_major > 1 || resp.http_version_minor > 0);
+	if (resp.transfer_encoding_chunked && !response_chunked) {
+		// HTTP/1.0 client knows nothing about chunks, so connection close gives body length instead
+		resp.transfer_encoding_chunked = false;
+		resp.keep_alive = request_parser.req.keep_alive = false;
+	}
 	remaining_body_content_length = resp.content_length;
 	request_head                  = request_parser.req.method == "HEAD";  // Response has no body, whatever headers say
 	sock.write(resp.to_string(), bo);
@@ -626,6 +632,10 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 		return;  // Empty chunk is terminator
 	if (request_head)
 		return;
+	if (!response_chunked) {
+		sock.write(val, count, bo);
+		return;
+	}
 	char buf[64]{};
 	int buf_n = std::sprintf(buf, "%llx\r\n", (unsigned long long)count);
 	invariant(buf_n > 0, "sprintf error (unexpected)");
@@ -667,6 +677,10 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 		return;  // Empty chunk is terminator
 	if (request_head)
 		return;
+	if (!response_chunked) {
+		sock.write(std::move(ss), bo);
+		return;
+	}
 	char buf[64]{};
 	int buf_n = std::sprintf(buf, "%llx\r\n", (unsigned long long)ss.size());
 	invariant(buf_n > 0, "sprintf error (unexpected)");
@@ -688,7 +702,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 	}
 	invariant(state == RESPONSE_BODY, "Connection unexpected write");
 	invariant(!remaining_body_content_length, "write_last_chunk is for chunked encoding only");
-	sock.write(request_head ? std::string{} : std::string{"0\r\n\r\n"}, bo);
+	sock.write(request_head || !response_chunked ? std::string{} : std::string{"0\r\n\r\n"}, bo);
 	if (!request_parser.req.keep_alive) {  // We sent it in our response header
 		read_buffer.clear();
 		sock.write_shutdown();
-- 
2.43.0


From 51092319cc72967cdf7219beea4429d79aae5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:43 +0000
Subject: [PATCH 43/44] fix: times of performance records were printed without
 leading zeros of their fractions

---
 include/crab/network.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 5c8cf40..83044bc 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -23,7 +23,7 @@ CRAB_INLINE void PerformanceStats::print_records(std::ostream &out) {
 	for (const auto &p : performance) {
 		auto mksec = std::chrono::duration_cast<std::chrono::microseconds>(p.tm.time_since_epoch()).count();
 		auto sec   = mksec / 1000000;
-		out << "* " << sec << "." << mksec % 1000000 << " " << p.event_type << " " << p.count << std::endl;
+		out << "* " << sec << "." << std::to_string(1000000 + mksec % 1000000).substr(1) << " " << p.event_type << " " << p.count << std::endl;
 	}
 	out << "---- total records " << performance.size() << std::endl;
 	clear_records();
-- 
2.43.0


From 1e4144666ba39c9d3453bd8f90c3bb9ef7fe1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:50 +0000
Subject: [PATCH 44/44] fix: without TLS, a request to https ended the run loop
 with an exception when the name was resolved

---
 include/crab/http/connection.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index aab1a7a..acab1a9 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -152,7 +152,12 @@ CRAB_INLINE ClientConnection::ClientConnection(Handler &&rwd_handler)
 
 CRAB_INLINE bool ClientConnection::connect(const std::string &h, uint16_t p, const std::string &pr) {
 	close();
-	if (pr != string_view{"http"} && pr != string_view{"https"})
+#if CRAB_TLS
+	const bool supported = pr == string_view{"http"} || pr == string_view{"https"};
+#else
+	const bool supported = pr == string_view{"http"};  // Otherwise connect_tls would throw later, from handler called by RunLoop
+#endif
+	if (!supported)
 		throw std::runtime_error{"ClientConnection unsupported protocol"};
 	dns.resolve(h, p, true, false);
 	host     = h;
-- 
2.43.0

