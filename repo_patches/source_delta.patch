From 53627788be5921b9c03b96ce24b22d5b5e55531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 01/80] fix: make reset() of the http streams compile (the name
 is found in two bases)

---
 src/http.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/http.h b/src/http.h
index 67c8cb7..7cba7dc 100644
--- a/src/http.h
+++ b/src/http.h
@@ -727,7 +727,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_istream<Log>::reset() {
-		base::reset(http::item::method);
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -845,7 +845,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_ostream<Log>::reset() {
-		base::reset(http::item::method);
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -930,7 +930,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_istream<Log>::reset() {
-		base::reset(http::item::protocol);
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
@@ -1005,7 +1005,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_ostream<Log>::reset() {
-		base::reset(http::item::protocol);
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
-- 
2.43.0


From ce60c6c8d33da72051cf0215dd6777ee315fc0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 02/80] fix: get_resource() no longer writes past a one byte
 buffer

---
 src/http.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/http.h b/src/http.h
index 7cba7dc..8bd99ae 100644
--- a/src/http.h
+++ b/src/http.h
@@ -762,8 +762,15 @@ namespace abc {
 		base::assert_next(http::item::resource);
 
 		// The resource is terminated by an extra '\0', so it could be split.
-		std::size_t gcount = base::get_prints(buffer, size - 1);
-		buffer[gcount + 1] = '\0';
+		std::size_t gcount = 0;
+		if (size > 1) {
+			gcount = base::get_prints(buffer, size - 1);
+			buffer[gcount + 1] = '\0';
+		}
+		else {
+			buffer[0] = '\0';
+			base::set_fail();
+		}
 
 		base::skip_spaces();
 
-- 
2.43.0


From 0b41604718894d76b21c5068a6959b5ca5d7c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 03/80] fix: a json string stops at the end of the input and of
 the buffer

---
 src/json.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 102102c..85d01ed 100644
--- a/src/json.h
+++ b/src/json.h
@@ -376,7 +376,7 @@ namespace abc {
 		if (ch == '"') {
 			base::get();
 
-			for (;;) {
+			while (base::is_good()) {
 				gcount += get_or_skip_string_content(buffer != nullptr ? buffer + gcount : nullptr, size - gcount);
 
 				ch = peek_char();
@@ -387,6 +387,11 @@ namespace abc {
 				else if (ch == '\\') {
 					char ech = get_escaped_char();
 					if (buffer != nullptr) {
+						if (gcount == size - 1) {
+							base::set_fail();
+							break;
+						}
+
 						buffer[gcount++] = ech;
 					}
 				}
-- 
2.43.0


From 00dcc65691b74a9b2b46e2cb6a9d6ce6e96f1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 04/80] fix: a long json number no longer overflows the digits
 buffer

---
 src/json.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/json.h b/src/json.h
index 85d01ed..888fe08 100644
--- a/src/json.h
+++ b/src/json.h
@@ -429,21 +429,31 @@ namespace abc {
 
 		ch = peek_char();
 		if (ch == '.') {
-			digits[gcount++] = base::get();
+			if (gcount == sizeof(digits) - 1) {
+				base::set_fail();
+			}
+			else {
+				digits[gcount++] = base::get();
 
-			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+				gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+			}
 		}
 
 		ch = peek_char();
 		if (ch == 'e' || ch == 'E') {
-			digits[gcount++] = base::get();
-
-			ch = peek_char();
-			if (ch == '+' || ch == '-') {
-				digits[gcount++] = base::get();
+			if (gcount >= sizeof(digits) - 2) {
+				base::set_fail();
 			}
+			else {
+				digits[gcount++] = base::get();
 
-			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+				ch = peek_char();
+				if (ch == '+' || ch == '-') {
+					digits[gcount++] = base::get();
+				}
+
+				gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+			}
 		}
 
 		digits[gcount] = '\0';
-- 
2.43.0


From 382f5444f67fed20ac98b5bedd7b267f0d9186b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 05/80] fix: the text of a json token starts at the value, not
 right after the item

---
 src/json.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/json.h b/src/json.h
index 888fe08..7a50e03 100644
--- a/src/json.h
+++ b/src/json.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cstddef>
 #include <cstdlib>
 #include <cstdio>
 
@@ -213,7 +214,7 @@ namespace abc {
 
 		if (state::expect_property()) {
 			if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::property;
 
@@ -284,7 +285,7 @@ namespace abc {
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::string;
 				}
-- 
2.43.0


From b1289a870479eea06cc401b26c859dea49368fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 06/80] fix: skipping a json value stops when the input ends

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 7a50e03..e43e771 100644
--- a/src/json.h
+++ b/src/json.h
@@ -186,7 +186,7 @@ namespace abc {
 		do {
 			item = get_or_skip_token(nullptr, 0);
 		}
-		while (state::levels() > base_levels);
+		while (base::is_good() && state::levels() > base_levels);
 
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::json, severity::abc::optional, 0x10102, "json_istream::skip_value() <<< item=%4.4x", item);
-- 
2.43.0


From 6f67c535f98a7ab80e1b583d9c79c26bce37814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 07/80] fix: an unknown escape sequence of a json string is an
 error (it was read twice)

---
 src/json.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json.h b/src/json.h
index e43e771..e0625a2 100644
--- a/src/json.h
+++ b/src/json.h
@@ -556,6 +556,10 @@ namespace abc {
 					ch = '\0';
 				}
 			}
+			else {
+				base::set_bad();
+				ch = '\0';
+			}
 		}
 		else {
 			if (log_local != nullptr) {
-- 
2.43.0


From dabfaff7e950cea8d6a28f5ccb28dc2bfc485241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 08/80] fix: a hex digit may follow a \u escape sequence of a
 json string

---
 src/json.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index e0625a2..28bdca0 100644
--- a/src/json.h
+++ b/src/json.h
@@ -534,7 +534,10 @@ namespace abc {
 
 				char buffer[4 + 1];
 
-				std::size_t gcount = get_hex(buffer, sizeof(buffer));
+				std::size_t gcount = 0;
+				while (gcount < 4 && base::is_good() && ascii::is_hex(peek_char())) {
+					buffer[gcount++] = base::get();
+				}
 
 				if (gcount != 4) {
 					if (log_local != nullptr) {
-- 
2.43.0


From 118eeee701e30b109879a2691fdaab950ea27ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 09/80] fix: json strings and property names are escaped when
 they are written

---
 src/i/json.i.h |  7 +++++++
 src/json.h     | 25 +++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 59c4a11..7a3865b 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -430,6 +430,13 @@ namespace abc {
 		void put_end_object();
 
 	public:
+		/**
+		 * @brief			Writes the content of a string or property, escaping the characters that may not appear in a JSON string.
+		 * @param buffer	Buffer.
+		 * @param size		Content size.
+		 */
+		void put_string_content(const char* buffer, std::size_t size);
+
 		/**
 		 * @brief			Writes a sequence of chars to the stream.
 		 * @param buffer	The sequence to write.
diff --git a/src/json.h b/src/json.h
index 28bdca0..be9a8fd 100644
--- a/src/json.h
+++ b/src/json.h
@@ -871,7 +871,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\"", 1);
 
 		_skip_comma = false;
@@ -900,7 +900,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\":", 2);
 
 		_skip_comma = true;
@@ -1000,6 +1000,27 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline void json_ostream<MaxLevels, Log>::put_string_content(const char* buffer, std::size_t size) {
+		for (std::size_t i = 0; i < size && base::is_good(); i++) {
+			char ch = buffer[i];
+
+			if (ch == '"' || ch == '\\') {
+				put_char('\\');
+				put_char(ch);
+			}
+			else if (ascii::is_control(ch)) {
+				char literal[6 + 1];
+				std::snprintf(literal, sizeof(literal), "\\u%4.4x", static_cast<unsigned>(ch));
+				put_chars(literal, 6);
+			}
+			else {
+				put_char(ch);
+			}
+		}
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_ostream<MaxLevels, Log>::put_chars(const char* buffer, std::size_t size) {
 		Log* log_local = state::log();
-- 
2.43.0


From a6a8bd4b1331b353cca7ae53ab489fa3b2e16448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 10/80] fix: a TLS socket whose construction fails releases its
 context and session

---
 src/openssl_socket.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ed8e3c8..de79331 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -57,6 +57,9 @@ namespace abc {
 
 		_ssl = SSL_new(_ctx);
 		if (_ssl == nullptr) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_new()", 0x10766, log_local);
 		}
 
@@ -103,6 +106,9 @@ namespace abc {
 
 		int stat = SSL_set_fd(_ssl, fd);
 		if (stat <= 0) {
+			SSL_free(_ssl);
+			_ssl = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_set_fd()", 0x1076c, log_local);
 		}
 
@@ -320,11 +326,17 @@ namespace abc {
 
 		int stat = SSL_CTX_use_certificate_file(_ctx, cert_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_certificate_file()", 0x1078f, log_local);
 		}
 
 	    stat = SSL_CTX_use_PrivateKey_file(_ctx, pkey_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_PrivateKey_file()", 0x10790, log_local);
 		}
 
-- 
2.43.0


From 2ee7fdb096be2d0311753c1968e9fd0877e5769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 11/80] fix: the TLS handshake works without a log

---
 src/openssl_socket.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index de79331..eee55f5 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -272,13 +272,19 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
 
-		log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		}
 		int ret = SSL_connect(_ssl);
-		log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		}
 
 		if (ret != 1) {
 			int err = SSL_get_error(_ssl, ret);
-			log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			if (log_local != nullptr) {
+				log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			}
 
 			throw exception<std::runtime_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_connect()", 0x10789, log_local);
 		}
-- 
2.43.0


From 9d2d140c0bc7571eb0484b8f04f77f9ecde5d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 12/80] fix: a TLS socket that was closed is not shut down
 through a descriptor it no longer owns

---
 src/openssl_socket.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index eee55f5..ce003bc 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -126,7 +126,10 @@ namespace abc {
 		}
 
 		if (_ssl != nullptr) {
-			SSL_shutdown(_ssl);
+			if (base::is_open()) {
+				SSL_shutdown(_ssl);
+			}
+
 			SSL_free(_ssl);
 			_ssl = nullptr;
 		}
-- 
2.43.0


From 9d0fee4f0318d32f4b0a7e9d959477005af76381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 13/80] fix: a socket stream ends when the connection ends, and
 a byte 0xff does not end it

---
 src/socket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 513e35e..06b87e0 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -552,11 +552,15 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::underflow() {
-		_socket->receive(&_get_ch, sizeof(char));
+		if (_socket->receive(&_get_ch, sizeof(char)) != sizeof(char)) {
+			setg(&_get_ch, &_get_ch, &_get_ch);
+
+			return traits_type::eof();
+		}
 
 		setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return traits_type::to_int_type(_get_ch);
 	}
 
 
-- 
2.43.0


From 1fe2b12915f34fa3d81c0a516527e389c47d95cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 14/80] fix: a socket stream reports characters that could not
 be sent

---
 src/socket.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 06b87e0..bacc3bd 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -566,10 +566,18 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::overflow(std::streambuf::int_type ch) {
-		_socket->send(&_put_ch, sizeof(char));
-		_socket->send(&ch, sizeof(char));
+		if (sync() != 0) {
+			return traits_type::eof();
+		}
 
-		setp(&_put_ch, &_put_ch + 1);
+		if (traits_type::eq_int_type(ch, traits_type::eof())) {
+			return traits_type::not_eof(ch);
+		}
+
+		char put_ch = traits_type::to_char_type(ch);
+		if (_socket->send(&put_ch, sizeof(char)) != sizeof(char)) {
+			return traits_type::eof();
+		}
 
 		return ch;
 	}
@@ -578,7 +586,9 @@ namespace abc {
 	template <typename Socket, typename Log>
 	inline int socket_streambuf<Socket, Log>::sync() {
 		if (pptr() != &_put_ch) {
-			_socket->send(&_put_ch, sizeof(char));
+			if (_socket->send(&_put_ch, sizeof(char)) != sizeof(char)) {
+				return -1;
+			}
 		}
 
 		setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From 837101c3401fa14369cd48b9b4797a17bd913f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 15/80] fix: moving a socket stream buffer keeps the character
 that was not read or sent yet

---
 src/socket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index bacc3bd..18f8f92 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -541,8 +541,9 @@ namespace abc {
 		, _log(other._log)
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		setg(&_get_ch, &_get_ch, &_get_ch);
+		setg(&_get_ch, &_get_ch, &_get_ch + (other.egptr() - other.gptr()));
 		setp(&_put_ch, &_put_ch + 1);
+		pbump((int)(other.pptr() - other.pbase()));
 
 		other._socket = nullptr;
 		other.setg(nullptr, nullptr, nullptr);
-- 
2.43.0


From 0171e887d6308efb6d0d0e766fa6739cb36652f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 16/80] fix: a TLS server that requires client certificates
 refuses a client without one

---
 src/openssl_socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ce003bc..6448514 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -328,7 +328,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_new()", 0x1078e, log_local);
 		}
 
-		SSL_CTX_set_verify(_ctx, _verify_client ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);
+		SSL_CTX_set_verify(_ctx, _verify_client ? SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT : SSL_VERIFY_NONE, nullptr);
 
 		SSL_CTX_set_default_passwd_cb(_ctx, pem_passwd_cb);
 		SSL_CTX_set_default_passwd_cb_userdata(_ctx, _pkey_file_password);
-- 
2.43.0


From c2a49cb26aed6f467bb0a289de355c0c7526a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 17/80] fix: the formats of diagnostics match their arguments

---
 src/json.h           |  6 +++---
 src/openssl_socket.h | 12 ++++++------
 src/socket.h         | 12 ++++++------
 src/x/vmem_pool.x.h  |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/json.h b/src/json.h
index be9a8fd..975c0bf 100644
--- a/src/json.h
+++ b/src/json.h
@@ -226,7 +226,7 @@ namespace abc {
 					}
 					else {
 						if (log_local != nullptr) {
-							log_local->put_any(category::abc::json, severity::important, 0x10104, "json_istream::get_or_skip_token() ch='%c' (\\u4.4x). Expected=':' ", ch, ch);
+							log_local->put_any(category::abc::json, severity::important, 0x10104, "json_istream::get_or_skip_token() ch='%c' (\\u%4.4x). Expected=':' ", ch, ch);
 						}
 
 						base::set_bad();
@@ -332,7 +332,7 @@ namespace abc {
 				if (state::expect_property()) {
 					if (ch != '}') {
 						if (log_local != nullptr) {
-							log_local->put_any(category::abc::json, severity::important, 0x10107, "json_istream::get_or_skip_token() ch='%c' (\\u4.4x). Expected='}' ", ch, ch);
+							log_local->put_any(category::abc::json, severity::important, 0x10107, "json_istream::get_or_skip_token() ch='%c' (\\u%4.4x). Expected='}' ", ch, ch);
 						}
 
 						base::set_bad();
@@ -341,7 +341,7 @@ namespace abc {
 				else {
 					if (ch != ']') {
 						if (log_local != nullptr) {
-							log_local->put_any(category::abc::json, severity::important, 0x10108, "json_istream::get_or_skip_token() ch='%c' (\\u4.4x). Expected=']' ", ch, ch);
+							log_local->put_any(category::abc::json, severity::important, 0x10108, "json_istream::get_or_skip_token() ch='%c' (\\u%4.4x). Expected=']' ", ch, ch);
 						}
 
 						base::set_bad();
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 6448514..2d177ff 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -196,20 +196,20 @@ namespace abc {
 
 		if (sent_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10777, "openssl_tcp_client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10777, "openssl_tcp_client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 
 			sent_size = 0;
 		}
 		else if ((std::size_t)sent_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10778, "openssl_tcp_client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10778, "openssl_tcp_client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10779, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1077a, "openssl_tcp_client_socket::send() <<< size=%zu, sent_size=%l", size, sent_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1077a, "openssl_tcp_client_socket::send() <<< size=%zu, sent_size=%ld", size, (long)sent_size);
 		}
 
 		return sent_size;
@@ -235,20 +235,20 @@ namespace abc {
 
 		if (received_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1077e, "openssl_tcp_client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1077e, "openssl_tcp_client_socket::receive() received_size=%ld", (long)received_size);
 			}
 
 			received_size = 0;
 		}
 		else if ((std::size_t)received_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1077f, "openssl_tcp_client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1077f, "openssl_tcp_client_socket::receive() received_size=%ld", (long)received_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10780, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10781, "openssl_tcp_client_socket::receive() <<< size=%zu, received_size=%l", size, received_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10781, "openssl_tcp_client_socket::receive() <<< size=%zu, received_size=%ld", size, (long)received_size);
 		}
 
 		return received_size;
diff --git a/src/socket.h b/src/socket.h
index 18f8f92..b391133 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -371,20 +371,20 @@ namespace abc {
 
 		if (sent_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1043f, "client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1043f, "client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 
 			sent_size = 0;
 		}
 		else if ((std::size_t)sent_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10440, "client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10440, "client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10066, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1001b, "client_socket::send() <<< size=%zu, sent_size=%l", size, sent_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1001b, "client_socket::send() <<< size=%zu, sent_size=%ld", size, sent_size);
 		}
 
 		return sent_size;
@@ -416,20 +416,20 @@ namespace abc {
 
 		if (received_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10441, "client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10441, "client_socket::receive() received_size=%ld", (long)received_size);
 			}
 
 			received_size = 0;
 		}
 		else if ((std::size_t)received_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10442, "client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10442, "client_socket::receive() received_size=%ld", (long)received_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10067, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10021, "client_socket::receive() <<< size=%zu, received_size=%l", size, received_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10021, "client_socket::receive() <<< size=%zu, received_size=%ld", size, received_size);
 		}
 
 		return received_size;
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index c29ca93..d110044 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -441,7 +441,7 @@ namespace abc {
 			page_pos = vmem_page_pos_nil;
 
 			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%l, errno=%d", (long)wb, errno);
+				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%ld, errno=%d", (long)wb, errno);
 			}
 		}
 
-- 
2.43.0


From 2403f51735778304d9881ac720b52f89a5157943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 18/80] fix: logging a text of given size does not read past it

---
 src/http.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/http.h b/src/http.h
index 8bd99ae..fd9fa9e 100644
--- a/src/http.h
+++ b/src/http.h
@@ -259,7 +259,7 @@ namespace abc {
 		set_gstate(gcount, http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%.*s', gcount=%zu", static_cast<int>(gcount), buffer, gcount);
 		}
 	}
 
@@ -471,7 +471,7 @@ namespace abc {
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%.*s', size=%zu, gcount=%zu", static_cast<int>(size), buffer, size, gcount);
 		}
 
 		return gcount;
@@ -507,7 +507,7 @@ namespace abc {
 		set_pstate(http::item::header_value);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -551,7 +551,7 @@ namespace abc {
 		set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -593,7 +593,7 @@ namespace abc {
 		set_pstate(http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -876,7 +876,7 @@ namespace abc {
 		base::set_pstate(http::item::resource);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -901,7 +901,7 @@ namespace abc {
 		base::set_pstate(http::item::protocol);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -1046,7 +1046,7 @@ namespace abc {
 		base::set_pstate(http::item::reason_phrase);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -1074,7 +1074,7 @@ namespace abc {
 		base::set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(pcount), buffer != nullptr ? buffer : "", size, pcount);
 		}
 	}
 
-- 
2.43.0


From b030e0736c6c276e3b395caaebb20583daf490eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 19/80] fix: the end of the input is not stored and counted as
 a byte of the body

---
 src/http.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index fd9fa9e..593e3ce 100644
--- a/src/http.h
+++ b/src/http.h
@@ -323,7 +323,11 @@ namespace abc {
 		std::size_t gcount = 0;
 
 		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
+			char ch = base::get();
+
+			if (base::is_good()) {
+				buffer[gcount++] = ch;
+			}
 		}
 
 		return gcount;
-- 
2.43.0


From a586d53d708c1f197848be6c734b98bb3b5ee562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 20/80] fix: a line that is full is truncated instead of being
 written past its end

---
 src/table.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 819a4f2..f27bb72 100644
--- a/src/table.h
+++ b/src/table.h
@@ -140,8 +140,15 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_anyv(const char* format, va_list vlist) noexcept {
-		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount, format, vlist);
-		_pcount += pc;
+		if (_pcount < Size) {
+			std::size_t size = Size - _pcount;
+			int pc = std::vsnprintf(_buffer + _pcount, size, format, vlist);
+
+			if (pc > 0) {
+				// The text is truncated if it does not fit.
+				_pcount += static_cast<std::size_t>(pc) < size ? pc : size - 1;
+			}
+		}
 	}
 
 
-- 
2.43.0


From 0aff4e406127b36d6cb5aeb9ea428591d40fe8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 21/80] fix: the text of a long thread id is terminated

---
 src/table.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/table.h b/src/table.h
index f27bb72..b8c357c 100644
--- a/src/table.h
+++ b/src/table.h
@@ -172,6 +172,8 @@ namespace abc {
 			buf[0] = ends;
 		}
 
+		buf[sizeof(buf) - 1] = ends;
+
 		put_any(format, buf);
 	}
 
-- 
2.43.0


From cc39bdc0acd7647fd0abd21fa972740e0d4c226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 22/80] fix: a test log accepts entries of the highest severity

---
 src/log.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/log.h b/src/log.h
index 56c2efa..d15706e 100644
--- a/src/log.h
+++ b/src/log.h
@@ -226,8 +226,9 @@ namespace abc {
 
 		char buf_severity[2 * severity::abc::debug + 1];
 		severity = severity <= severity::abc::debug ? severity : severity::abc::debug;
-		std::memset(buf_severity, ' ', 2 * severity);
-		buf_severity[2 * (severity - 1)] = '\0';
+		std::size_t indent = severity > 0 ? 2 * (severity - 1) : 0;
+		std::memset(buf_severity, ' ', indent);
+		buf_severity[indent] = '\0';
 		base::put_any(buf_severity);
 	}
 
-- 
2.43.0


From 698a6e7c5f4fc809ef80bf4b8aa7e6dc3c68ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 23/80] fix: a line that was moved is not written twice

---
 src/table.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index b8c357c..9818a46 100644
--- a/src/table.h
+++ b/src/table.h
@@ -88,11 +88,14 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline line_ostream<Size>::line_ostream(line_ostream<Size>&& other)
-		: base(std::move(other))
+		: base(&_sb)
 		, _table(other._table)
-		, _sb(std::move(other._sb))
+		, _sb(nullptr, 0, 0, _buffer, 0, Size)
 		, _pcount(other._pcount) {
 		std::memmove(_buffer, other._buffer, sizeof(char) * (Size + 2));
+
+		other._table = nullptr;
+		other._pcount = 0;
 	}
 
 
-- 
2.43.0


From 5c521d65107a41c222a087f7d7ac058215ab45c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 24/80] fix: a moved input stream keeps the count of its last
 read

---
 src/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index fc0626e..1dbaee1 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -136,7 +136,8 @@ namespace abc {
 
 
 	inline istream::istream(istream&& other)
-		: base(std::move(other)) {
+		: base(std::move(other))
+		, _gcount(other._gcount) {
 	}
 
 
-- 
2.43.0


From a09c48a4c408805c7c7f49001590e5cb651515ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 25/80] fix: vmem iterators work without a log

---
 src/x/vmem_iterator.x.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x/vmem_iterator.x.h b/src/x/vmem_iterator.x.h
index 5af16f6..693c7a8 100644
--- a/src/x/vmem_iterator.x.h
+++ b/src/x/vmem_iterator.x.h
@@ -154,7 +154,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->next(*this);
@@ -166,7 +168,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -180,7 +184,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->prev(*this);
@@ -192,7 +198,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -247,7 +255,9 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_iterator::deref() Dereferencing invalid iterator", 0x10606);
 		}
 
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		}
 
 		return *p;
 	}
-- 
2.43.0


From a5e3b3c0ab30fa4e7f0463754ac1a57bee14ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 26/80] fix: pages spliced into an empty list leave the list
 they come from

---
 src/x/vmem_linked.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index f40416c..b7898a7 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -523,6 +523,10 @@ namespace abc {
 		else if (empty()) {
 			// Take over the other state.
 			*_state = *other._state;
+
+			// Empty other state.
+			other._state->front_page_pos = vmem_page_pos_nil;
+			other._state->back_page_pos = vmem_page_pos_nil;
 		}
 		else {
 			// Connect the back page of this and the front page of the other.
-- 
2.43.0


From f1041f0235b157df5e8bbfd5c2ca5f6a3234107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 27/80] fix: a cleared container counts no items

---
 src/x/vmem_container.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0f6a69d..d93dfb8 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1088,6 +1088,10 @@ namespace abc {
 	inline void vmem_container<T, Header, Pool, Log>::clear() noexcept {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 		linked.clear();
+
+		if (empty()) {
+			_state->total_item_count = 0;
+		}
 	}
 
 
-- 
2.43.0


From b75b0f85a82eba6581be88ae97cded0acb8646dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 28/80] fix: a page that a container drops is freed once

---
 src/x/vmem_container.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index d93dfb8..28493c0 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1026,10 +1026,11 @@ namespace abc {
 				(long long)page_pos);
 		}
 
+		// The page goes back to the pool when it leaves the linked list.
 		bool ok = erase_page_pos(page_pos);
 
 		if (ok) {
-			page.free();
+			page = vmem_page<Pool, Log>(nullptr);
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From 81eee12d201d3890dd7512d8fd8f82fbec210aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 29/80] fix: an erased key of a map is not found past the end
 of its page

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 708a649..defd2cb 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -749,7 +749,7 @@ namespace abc {
 					item_pos++;
 				}
 
-				found = vmem_are_equal(value_page->items[item_pos].key, key);
+				found = item_pos < value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
 			}
 		}
 
-- 
2.43.0


From 2799aa711132c58c909bfd0e75c43ff1d6db2178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 30/80] fix: merging with the next page is not forgotten when
 there is a previous page

---
 src/x/vmem_container.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 28493c0..e089527 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -868,8 +868,8 @@ namespace abc {
 			result = balance_merge_next(itr, page, container_page);
 		}
 
-		// Try the previous page.
-		if (container_page->prev_page_pos != vmem_page_pos_nil) {
+		// Try the previous page, unless the next one has been merged.
+		if (result.page_leads[1].operation == vmem_container_page_lead_operation::none && container_page->prev_page_pos != vmem_page_pos_nil) {
 			result = balance_merge_prev(itr, page, container_page);
 		}
 
-- 
2.43.0


From fc355e2df9d1135c14d9ab113fb440e596bed2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 31/80] fix: erasing the last item of a container returns its
 end

---
 src/x/vmem_container.x.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index e089527..3c7e64e 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -768,12 +768,7 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10467, "vmem_container::erase_nostate() Only.");
 				}
 
-				if (container_page->next_page_pos != vmem_page_pos_nil) {
-					result.iterator = iterator(this, container_page->next_page_pos, 0, vmem_iterator_edge::none, _log);
-				}
-				else {
-					result.iterator = end_itr();
-				}
+				vmem_page_pos_t next_page_pos = container_page->next_page_pos;
 
 				// page_leads[0] - none
 				// page_leads[1] - erase
@@ -783,6 +778,14 @@ namespace abc {
 
 				erase_page(page);
 				container_page = nullptr;
+
+				// The end of the container moves with its last page.
+				if (next_page_pos != vmem_page_pos_nil) {
+					result.iterator = iterator(this, next_page_pos, 0, vmem_iterator_edge::none, _log);
+				}
+				else {
+					result.iterator = end_itr();
+				}
 			}
 		}
 
-- 
2.43.0


From b5c9842993f3a6ed4929ab053a9a59a8ef78a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 32/80] fix: erasing from a map keeps its key levels in order

---
 src/i/vmem_map.i.h | 11 ++++++++
 src/x/vmem_map.x.h | 70 ++++++++++++++++++++++++++++++++++++----------
 2 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index f4d02c7..c5b9eae 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -299,6 +299,7 @@ namespace abc {
 		using iterator_bool				= std::pair<vmem_map_iterator<Key, T, Pool, Log>, bool>;
 
 	private:
+		using path_iterator				= typename vmem_stack<vmem_page_pos_t, Pool, Log>::iterator;
 		using path_reverse_iterator		= typename vmem_stack<vmem_page_pos_t, Pool, Log>::reverse_iterator;
 		using key_level_stack			= vmem_map_key_level_stack<Key, Pool, Log>;
 		using key_level_stack_iterator	= typename vmem_map_key_level_stack<Key, Pool, Log>::iterator;
@@ -457,6 +458,16 @@ namespace abc {
 		 */
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
+		/**
+		 * @brief				Replaces the key that leads to a page, and the keys above it for which that key is the first one.
+		 * @param key_stack_itr	Iterator to the key level where the key is.
+		 * @param path_itr		Iterator to the path element for that level.
+		 * @param path_end		End of the path.
+		 * @param page_pos		Position of the page.
+		 * @param key			New key.
+		 */
+		void replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, path_reverse_iterator path_end, vmem_page_pos_t page_pos, const Key& key) noexcept;
+
 		/**
 		 * @brief				Returns the position of a key on a key page.
 		 * @param key_page_pos	Key page position.
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index defd2cb..49b4a02 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -317,6 +317,19 @@ namespace abc {
 
 		result2 result(nullptr);
 		if (values_result.iterator.is_valid()) {
+			// No key on the path may be greater than the keys it leads to.
+			for (path_iterator path_itr = find_result.path.begin(); path_itr != find_result.path.end(); path_itr++) {
+				vmem_page<Pool, Log> key_page(_pool, *path_itr, _log);
+
+				if (key_page.ptr() != nullptr) {
+					vmem_map_key_page<Key>* map_key_page = reinterpret_cast<vmem_map_key_page<Key>*>(key_page.ptr());
+
+					if (vmem_is_less(item.key, map_key_page->items[0].key)) {
+						vmem_copy(map_key_page->items[0].key, item.key);
+					}
+				}
+			}
+
 			result = update_key_levels(true, std::move(find_result), std::move(values_result));
 		}
 
@@ -453,27 +466,25 @@ namespace abc {
 						// page_leads[1] - erase
 
 						if (page_leads[0].operation == vmem_container_page_lead_operation::replace) {
-							vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
-							if (parent_item_pos == vmem_item_pos_nil) {
-								ok = false;
-								break;
-							}
+							replace_key(key_stack_itr, path_itr, find_result.path.rbegin(), page_leads[0].page_pos, page_leads[0].items[1].key);
+						}
 
-							key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-							if (parent_keys_itr.can_deref()) {
-								vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
-								vmem_copy(key_ptr->key, page_leads[0].items[1].key);
-							}
+						if (page_leads[1].operation != vmem_container_page_lead_operation::erase) {
+							break;
 						}
 
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].items[0].key);
-						if (parent_item_pos == vmem_item_pos_nil) {
+						// The key of a page is the one that leads to it. It is on the parent page, or on the one after that
+						// when the next page has been merged.
+						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, 0, vmem_iterator_edge::none, _log);
+						while (parent_keys_itr.can_deref() && parent_keys_itr->page_pos != page_leads[1].page_pos) {
+							parent_keys_itr++;
+						}
+
+						if (!parent_keys_itr.can_deref()) {
 							ok = false;
 							break;
 						}
 
-						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-
 						keys_result = parent_keys.erase2(parent_keys_itr);
 					}
 
@@ -555,6 +566,37 @@ namespace abc {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline void vmem_map<Key, T, Pool, Log>::replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, path_reverse_iterator path_end, vmem_page_pos_t page_pos, const Key& key) noexcept {
+		bool is_first = true;
+
+		// The first key of a page is also the key of that page on the level above.
+		while (is_first && key_stack_itr != _key_stack.end() && path_itr != path_end) {
+			// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
+			vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
+			vmem_map_key_level<Key, Pool, Log> parent_keys(key_level_state_ptr.operator->(), _pool, _log);
+
+			key_level_iterator parent_keys_itr(&parent_keys, *path_itr, 0, vmem_iterator_edge::none, _log);
+			while (parent_keys_itr.can_deref() && parent_keys_itr->page_pos != page_pos) {
+				parent_keys_itr++;
+			}
+
+			if (!parent_keys_itr.can_deref()) {
+				break;
+			}
+
+			vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
+			vmem_copy(key_ptr->key, key);
+
+			is_first = parent_keys_itr.item_pos() == 0;
+			page_pos = parent_keys_itr.page_pos();
+
+			key_stack_itr++;
+			path_itr--;
+		}
+	}
+
+
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept {
 		if (_log != nullptr) {
-- 
2.43.0


From a1ab6fc8190a949651b1fcf97c35f21e7ad9818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 33/80] fix: a key level that a map drops gives its page back

---
 src/x/vmem_map.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 49b4a02..a5bcfb7 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -535,6 +535,10 @@ namespace abc {
 								vmem_container_state top_keys_state = _key_stack.back();
 								vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
 								top_keys_size = top_keys.size();
+
+								if (top_keys_size == 1) {
+									top_keys.clear();
+								}
 							}
 
 							if (top_keys_size == 1) {
-- 
2.43.0


From d9ba13dba5e4f9c1351ed1fac142168586b31728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 34/80] fix: a list whose page cannot be erased is left as it
 was

---
 src/i/vmem_linked.i.h |  7 +++---
 src/x/vmem_linked.x.h | 56 ++++++++++++++++++++++++-------------------
 2 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/i/vmem_linked.i.h b/src/i/vmem_linked.i.h
index 09f4d43..023063a 100644
--- a/src/i/vmem_linked.i.h
+++ b/src/i/vmem_linked.i.h
@@ -186,12 +186,13 @@ namespace abc {
 		bool insert_nostate(const_iterator itr, const_reference page_pos, vmem_page_pos_t back_page_pos) noexcept;
 
 		/**
-		 * @brief				Links a page at the given iterator.
+		 * @brief				Unlinks the page at the given iterator.
 		 * @param itr			Iterator.
-		 * @param back_page_pos	Position of the back page.
+		 * @param next_page_pos	Receives the position of the page after the erased one.
+		 * @param back_page_pos	Receives the position of the page before the erased one, i.e. the new back page when the back page is erased.
 		 * @return				`true` == success; `false` = error.
 		 */
-		bool erase_nostate(const_iterator itr, vmem_page_pos_t& back_page_pos) noexcept;
+		bool erase_nostate(const_iterator itr, vmem_page_pos_t& next_page_pos, vmem_page_pos_t& back_page_pos) noexcept;
 
 	private:
 		friend iterator_state;
diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index b7898a7..0be1006 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -378,13 +378,18 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x10499, "vmem_linked::erase() Start. itr.page_pos=0x%llx", (long long)itr.page_pos());
 		}
 
-		// The result, upon success, is the next of itr.
-		iterator result = next(itr);
+		iterator result = end();
 
+		vmem_page_pos_t next_page_pos = vmem_page_pos_nil;
 		vmem_page_pos_t back_page_pos = vmem_page_pos_nil;
-		bool ok = erase_nostate(itr, back_page_pos);
+		bool ok = erase_nostate(itr, next_page_pos, back_page_pos);
 
 		if (ok) {
+			// The result, upon success, is the next of itr.
+			if (next_page_pos != vmem_page_pos_nil) {
+				result = iterator(this, next_page_pos, vmem_item_pos_nil, vmem_iterator_edge::none, _log);
+			}
+
 			// Update the front page pos.
 			if (_state->front_page_pos == itr.page_pos()) {
 				_state->front_page_pos = result.page_pos();
@@ -395,9 +400,6 @@ namespace abc {
 				_state->back_page_pos = back_page_pos;
 			}
 		}
-		else {
-			result = end();
-		}
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x1049a, "vmem_linked::erase() Done. itr.page_pos=0x%llx, result.page_pos=0x%llx, result.edge=%u",
@@ -409,7 +411,7 @@ namespace abc {
 
 
 	template <typename Pool, typename Log>
-	inline bool vmem_linked<Pool, Log>::erase_nostate(const_iterator itr, vmem_page_pos_t& back_page_pos) noexcept {
+	inline bool vmem_linked<Pool, Log>::erase_nostate(const_iterator itr, vmem_page_pos_t& next_page_pos, vmem_page_pos_t& back_page_pos) noexcept {
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x1049b, "vmem_linked::erase_nostate() Start. itr.page_pos=0x%llx", (long long)itr.page_pos());
 		}
@@ -427,11 +429,18 @@ namespace abc {
 			}
 		}
 
+		// Load both neighbors before changing either of them, so that the list remains intact if one cannot be loaded.
+		vmem_page<Pool, Log> prev_page(nullptr);
+		vmem_linked_page* prev_linked_page = nullptr;
+
+		vmem_page<Pool, Log> next_page(nullptr);
+		vmem_linked_page* next_linked_page = nullptr;
+
 		if (ok) {
 			if (linked_page->prev_page_pos != vmem_page_pos_nil) {
 				// There is a prev page.
-				vmem_page<Pool, Log> prev_page(_pool, linked_page->prev_page_pos, _log);
-				vmem_linked_page* prev_linked_page = reinterpret_cast<vmem_linked_page*>(prev_page.ptr());
+				prev_page = vmem_page<Pool, Log>(_pool, linked_page->prev_page_pos, _log);
+				prev_linked_page = reinterpret_cast<vmem_linked_page*>(prev_page.ptr());
 
 				if (prev_linked_page == nullptr) {
 					ok = false;
@@ -440,18 +449,14 @@ namespace abc {
 						_log->put_any(category::abc::vmem, severity::warning, 0x1049d, "vmem_linked::erase_nostate() Could not load prev page.");
 					}
 				}
-
-				if (ok) {
-					prev_linked_page->next_page_pos = linked_page->next_page_pos;
-				}
 			}
 		}
 
 		if (ok) {
 			if (linked_page->next_page_pos != vmem_page_pos_nil) {
 				// There is a next page.
-				vmem_page<Pool, Log> next_page(_pool, linked_page->next_page_pos, _log);
-				vmem_linked_page* next_linked_page = reinterpret_cast<vmem_linked_page*>(next_page.ptr());
+				next_page = vmem_page<Pool, Log>(_pool, linked_page->next_page_pos, _log);
+				next_linked_page = reinterpret_cast<vmem_linked_page*>(next_page.ptr());
 
 				if (next_linked_page == nullptr) {
 					ok = false;
@@ -460,19 +465,22 @@ namespace abc {
 						_log->put_any(category::abc::vmem, severity::warning, 0x1049e, "vmem_linked::erase_nostate() Could not load next page.");
 					}
 				}
-
-				if (ok) {
-					next_linked_page->prev_page_pos = linked_page->prev_page_pos;
-				}
-			}
-			else {
-				// There is no next page, which means we are deleting the back page.
-				// Export back the new back page pos.
-				back_page_pos = linked_page->prev_page_pos;
 			}
 		}
 
 		if (ok) {
+			if (prev_linked_page != nullptr) {
+				prev_linked_page->next_page_pos = linked_page->next_page_pos;
+			}
+
+			if (next_linked_page != nullptr) {
+				next_linked_page->prev_page_pos = linked_page->prev_page_pos;
+			}
+
+			// Export the neighbors of the erased page.
+			next_page_pos = linked_page->next_page_pos;
+			back_page_pos = linked_page->prev_page_pos;
+
 			linked_page = nullptr;
 			page.free();
 		}
-- 
2.43.0


From 8ab7161cecd12e92a8cde93b1210d1ffbde6810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 35/80] fix: a page that cannot be mapped is not used

---
 src/x/vmem_pool.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index d110044..b180b22 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -501,7 +501,9 @@ namespace abc {
 		}
 
 		// Optimization: Swap this page forward (once) to keep pages sorted by keep_count.
-		optimize_mapped_page(i);
+		if (page_ptr != nullptr) {
+			optimize_mapped_page(i);
+		}
 
 		log_totals();
 
@@ -787,6 +789,10 @@ namespace abc {
 				i, (long long)page_pos, ptr, errno);
 		}
 
+		if (ptr == MAP_FAILED) {
+			return nullptr;
+		}
+
 		_mapped_page_count++;
 
 		// Set the slot.
-- 
2.43.0


From f45bf25661ae11cb66d418ea8a6395b3ddf74cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 36/80] fix: a page that stays free is not handed out

---
 src/x/vmem_pool.x.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index b180b22..3f3d4b4 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -376,9 +376,14 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10393, "vmem_pool::pop_free_page_pos() Non-empty");
 				}
 
-				page_pos = free_pages_linked.back();
+				page_pos = root_page->free_pages.back_page_pos;
 				free_pages_linked.pop_back();
 
+				if (root_page->free_pages.back_page_pos == page_pos) {
+					// The page could not be unlinked. Do not hand it out while it is still free.
+					page_pos = vmem_page_pos_nil;
+				}
+
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10394, "vmem_pool::pop_free_page_pos() Found free page. page_pos=0x%llx", (long long)page_pos);
 				}
-- 
2.43.0


From 14db88d74149029ac0e31fb7b46a850ef9e78ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 37/80] fix: a page that could not be created is not used

---
 src/x/vmem_pool.x.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 3f3d4b4..f9f8381 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -431,7 +431,17 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x104b7, "vmem_pool::create_page() Start");
 		}
 
-		vmem_page_pos_t page_off = lseek(_fd, 0, SEEK_END);
+		off_t end_off = lseek(_fd, 0, SEEK_END);
+
+		if (end_off < 0) {
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::warning, 0x10717, "vmem_pool::create_page() Could not find the end of the file. errno=%d", errno);
+			}
+
+			return vmem_page_pos_nil;
+		}
+
+		vmem_page_pos_t page_off = static_cast<vmem_page_pos_t>(end_off);
 		vmem_page_pos_t page_pos = page_off / vmem_page_size;
 
 		if (_log != nullptr) {
@@ -448,6 +458,13 @@ namespace abc {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%ld, errno=%d", (long)wb, errno);
 			}
+
+			// Drop an incomplete page, so that the pages that get created later are aligned.
+			if (wb > 0 && ftruncate(_fd, end_off) != 0) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, 0x10718, "vmem_pool::create_page() Could not drop an incomplete page. errno=%d", errno);
+				}
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From a7e87f679375a72fe8b88047820ef17e0d5ed546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 38/80] fix: a pool that cannot be opened closes its file

---
 src/i/vmem_pool.i.h |  7 ++++++
 src/x/vmem_pool.x.h | 54 +++++++++++++++++++++++++++++----------------
 2 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/i/vmem_pool.i.h b/src/i/vmem_pool.i.h
index 9c71eb0..f376045 100644
--- a/src/i/vmem_pool.i.h
+++ b/src/i/vmem_pool.i.h
@@ -162,6 +162,13 @@ namespace abc {
 		 */
 		void clear_linked(vmem_linked<Pool, Log>& linked);
 
+	// Destructor helpers
+	private:
+		/**
+		 * @brief				Unmaps all mapped pages, and closes the pool file.
+		 */
+		void close_pool() noexcept;
+
 	// Constructor helpers
 	private:
 		/**
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index f9f8381..517ba87 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -50,6 +50,7 @@ namespace abc {
 	template <std::size_t MaxMappedPages, typename Log>
 	inline vmem_pool<MaxMappedPages, Log>::vmem_pool(const char* file_path, Log* log)
 		: _ready(false)
+		, _fd(-1)
 		, _mapped_page_count(0)
 		, _mapped_pages{ }
 		, _mapped_page_totals{ }
@@ -61,13 +62,20 @@ namespace abc {
 
 		verify_args_or_throw(file_path);
 
-		bool is_init = open_pool_or_throw(file_path);
+		try {
+			bool is_init = open_pool_or_throw(file_path);
 
-		if (!is_init) {
-			init_pool_or_throw();
-		}
+			if (!is_init) {
+				init_pool_or_throw();
+			}
 
-		verify_pool_or_throw();
+			verify_pool_or_throw();
+		}
+		catch (...) {
+			// The destructor is not going to be called.
+			close_pool();
+			throw;
+		}
 
 		_ready = true;
 
@@ -111,20 +119,7 @@ namespace abc {
 				return;
 			}
 
-			for (std::size_t i = 0; i < _mapped_page_count; i++) {
-				std::size_t dummy_unmapped_count = 0;
-				std::size_t dummy_empty_i = _mapped_page_count;
-
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::~vmem_pool() Unmap page i=%zu", i);
-				}
-				unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
-			}
-
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::~vmem_pool() Close file fd=%d", _fd);
-			}
-			close(_fd);
+			close_pool();
 		}
 
 		_ready = false;
@@ -136,6 +131,27 @@ namespace abc {
 		}
 	}
 
+
+	template <std::size_t MaxMappedPages, typename Log>
+	inline void vmem_pool<MaxMappedPages, Log>::close_pool() noexcept {
+		for (std::size_t i = 0; i < _mapped_page_count; i++) {
+			std::size_t dummy_unmapped_count = 0;
+			std::size_t dummy_empty_i = _mapped_page_count;
+
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::close_pool() Unmap page i=%zu", i);
+			}
+			unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
+		}
+
+		if (_fd >= 0) {
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::close_pool() Close file fd=%d", _fd);
+			}
+			close(_fd);
+		}
+	}
+
 	template <std::size_t MaxMappedPages, typename Log>
 	inline void vmem_pool<MaxMappedPages, Log>::verify_args_or_throw(const char* file_path) {
 		if (Pool::max_mapped_pages() < vmem_min_mapped_pages) {
-- 
2.43.0


From eb567e30f21c6792154584c3be5d33c66135a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:48 +0000
Subject: [PATCH 39/80] fix: a pool file without a start page is rejected

---
 src/x/vmem_pool.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 517ba87..3f1ec2e 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -190,6 +190,10 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Corrupt vmem file - size", 0x10380, _log);
 		}
 
+		if (0 < file_size && file_size <= vmem_page_pos_start * vmem_page_size) {
+			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Corrupt vmem file - no start page", 0x10719, _log);
+		}
+
 		bool is_init = (file_size > 0);
 
 		if (_log != nullptr) {
-- 
2.43.0


From ca7c0d93d1e6b8417d72e9128038767a8002ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 40/80] fix: the signature of a pool file is logged within its
 bounds

---
 src/x/vmem_pool.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 3f1ec2e..53f5e0b 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -279,7 +279,7 @@ namespace abc {
 		vmem_root_page* root_page = reinterpret_cast<vmem_root_page*>(page.ptr());
 
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10389, "vmem_pool::verify_root_page_or_throw() Root page integrity pos=0x%llx, ptr=%p, version=%u, signature='%s', page_size=%u",
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10389, "vmem_pool::verify_root_page_or_throw() Root page integrity pos=0x%llx, ptr=%p, version=%u, signature='%.10s', page_size=%u",
 				(long long)page.pos(), page.ptr(), root_page->version, root_page->signature, root_page->page_size);
 		}
 
-- 
2.43.0


From db8bf3d4b0fc4d7af07346a58be43fe654395c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 41/80] fix: the totals of a pool without hits are logged

---
 src/x/vmem_pool.x.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 53f5e0b..3a8afce 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -893,11 +893,11 @@ namespace abc {
 	inline void vmem_pool<MaxMappedPages, Log>::log_totals() noexcept {
 		if (_log != nullptr) {
 			vmem_page_hit_count_t total_lock_count = _mapped_page_totals.hit_count + _mapped_page_totals.miss_count;
-			vmem_page_hit_count_t hit_percent = (_mapped_page_totals.hit_count * 100) / total_lock_count;
-			vmem_page_hit_count_t miss_percent = (_mapped_page_totals.miss_count * 100) / total_lock_count;
+			vmem_page_hit_count_t hit_percent = total_lock_count > 0 ? (_mapped_page_totals.hit_count * 100) / total_lock_count : 0;
+			vmem_page_hit_count_t miss_percent = total_lock_count > 0 ? (_mapped_page_totals.miss_count * 100) / total_lock_count : 0;
 
 			vmem_page_hit_count_t total_lookup_count = _mapped_page_totals.hit_count + _mapped_page_totals.miss_count + _mapped_page_totals.unlock_count;
-			vmem_page_hit_count_t check_factor_x10 = (_mapped_page_totals.check_count * 10) / total_lookup_count;
+			vmem_page_hit_count_t check_factor_x10 = total_lookup_count > 0 ? (_mapped_page_totals.check_count * 10) / total_lookup_count : 0;
 			vmem_page_hit_count_t check_factor_percent = (check_factor_x10 * 10) / MaxMappedPages;
 
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x103ae, "vmem_pool::log_totals() Pool Totals hits=%u (%u%%), misses=%u (%u%%), checks=%u (%u.%u, %u%%)", 
-- 
2.43.0


From c8e36cb09e393241da5b24c8790c62b91f51b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 42/80] fix: a range inserted across a page boundary keeps its
 order

---
 src/x/vmem_container.x.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 3c7e64e..736cef0 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -386,9 +386,22 @@ namespace abc {
 	template <typename InputItr>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::insert(const_iterator itr, InputItr first, InputItr last) {
 		iterator ret(itr);
+		iterator next_itr(itr);
+		bool is_first = true;
 
 		for (InputItr item = first; item != last; item++) {
-			if (!insert(itr++, *item).can_deref()) {
+			iterator item_itr = insert(next_itr, *item);
+
+			if (is_first) {
+				ret = item_itr;
+				is_first = false;
+			}
+
+			// Inserting may move items to a new page. So the next position is after the inserted item.
+			next_itr = item_itr;
+			next_itr++;
+
+			if (!item_itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x1044e, "vmem_container::insert() Breaking from the loop.");
 				}
-- 
2.43.0


From 539a4fe3f802fab1c23b5e40abe9803f5bf34e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 43/80] fix: erasing a range within one page stops at its end

---
 src/x/vmem_container.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 736cef0..7321087 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -723,9 +723,15 @@ namespace abc {
 
 	template <typename T, typename Header, typename Pool, typename Log>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::erase(const_iterator first, const_iterator last) {
+		// Erasing invalidates last. So count the items.
+		std::size_t item_count = 0;
+		for (const_iterator count_itr = first; count_itr != last && count_itr.can_deref(); count_itr++) {
+			item_count++;
+		}
+
 		iterator itr = first;
 
-		while (itr != last) {
+		for (; item_count > 0; item_count--) {
 			if (!itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10464, "vmem_container::erase(first, last) Breaking from the loop.");
-- 
2.43.0


From 008c5b4be36a17ad05dbe83db650dcf3bfb12169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 44/80] fix: inserting into a full page never exceeds the page

---
 src/x/vmem_container.x.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 7321087..4dacd37 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -516,7 +516,8 @@ namespace abc {
 		result2 result;
 
 		// Decide whether we should balance before we alter container_page.
-		bool balance = should_balance_insert(itr, container_page);
+		// An item that is to be inserted before other items on this page always needs room on this page.
+		bool balance = itr.item_pos() != vmem_item_pos_nil || (page_capacity() > 1 && should_balance_insert(itr, container_page));
 
 		vmem_page<Pool, Log> new_page(nullptr);
 		vmem_container_page<T, Header>* new_container_page = nullptr;
@@ -594,7 +595,7 @@ namespace abc {
 				(long long)page_pos, (long long)new_page_pos);
 		}
 
-		constexpr std::size_t new_page_item_count = page_capacity() / 2;
+		constexpr std::size_t new_page_item_count = page_capacity() > 1 ? page_capacity() / 2 : 1;
 		constexpr std::size_t page_item_count = page_capacity() - new_page_item_count;
 		std::memmove(&new_container_page->items[0], &container_page->items[page_item_count], new_page_item_count * sizeof(T));
 		new_container_page->item_count = new_page_item_count;
-- 
2.43.0


From d4a27cb065e60d9c33639ea9aaff2e434b2e2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 45/80] fix: a page that cannot be unlinked keeps the item
 counts

---
 src/x/vmem_container.x.h | 75 +++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 4dacd37..28c5274 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -796,16 +796,18 @@ namespace abc {
 				result.page_leads[1] = page_lead(vmem_container_page_lead_operation::erase, page.pos());
 				vmem_copy(result.page_leads[1].items[0], container_page->items[0]);
 
-				erase_page(page);
-				container_page = nullptr;
-
+				if (!erase_page(page)) {
+					result = result2();
+				}
 				// The end of the container moves with its last page.
-				if (next_page_pos != vmem_page_pos_nil) {
+				else if (next_page_pos != vmem_page_pos_nil) {
 					result.iterator = iterator(this, next_page_pos, 0, vmem_iterator_edge::none, _log);
 				}
 				else {
 					result.iterator = end_itr();
 				}
+
+				container_page = nullptr;
 			}
 		}
 
@@ -946,16 +948,24 @@ namespace abc {
 				// Merge the items from the next page into this one.
 				std::memmove(&container_page->items[container_page->item_count], &next_container_page->items[0], next_container_page->item_count * sizeof(T));
 
-				// Fix the next item, if it was item[0] on the next page.
-				if (itr.page_pos() == next_page.pos()) {
-					result.iterator = iterator(this, page.pos(), container_page->item_count, vmem_iterator_edge::none, _log);
-				}
+				vmem_page_pos_t next_page_pos = next_page.pos();
+				vmem_item_pos_t next_page_item_count = next_container_page->item_count;
 
-				// Update the item count on this page.
-				container_page->item_count += next_container_page->item_count;
+				// Free the next page. The moved items count only if that succeeds.
+				if (erase_page(next_page)) {
+					// Fix the next item, if it was item[0] on the next page.
+					if (itr.page_pos() == next_page_pos) {
+						result.iterator = iterator(this, page.pos(), container_page->item_count, vmem_iterator_edge::none, _log);
+					}
+
+					// Update the item count on this page.
+					container_page->item_count += next_page_item_count;
+				}
+				else {
+					result = result2();
+					result.iterator = itr;
+				}
 
-				// Free the next page.
-				erase_page(next_page);
 				next_container_page = nullptr;
 			}
 		}
@@ -1011,22 +1021,30 @@ namespace abc {
 				// Merge the items from this page into the previous one.
 				std::memmove(&prev_container_page->items[prev_container_page->item_count], &container_page->items[0], container_page->item_count * sizeof(T));
 
-				// Update the result only if itr references this page.
-				// If we deleted the last item on this page, itr references item[0] on the next page, and will not be affected by this balancing.
-				if (itr.page_pos() == page.pos()) {
-					if (itr.item_pos() != vmem_item_pos_nil) {
-						result.iterator = iterator(this, prev_page.pos(), itr.item_pos() + prev_container_page->item_count, vmem_iterator_edge::none, _log);
-					}
-					else {
-						result.iterator = iterator(this, prev_page.pos(), itr.item_pos(), itr.edge(), _log);
+				vmem_page_pos_t page_pos = page.pos();
+				vmem_item_pos_t page_item_count = container_page->item_count;
+
+				// Free this page. The moved items count only if that succeeds.
+				if (erase_page(page)) {
+					// Update the result only if itr references this page.
+					// If we deleted the last item on this page, itr references item[0] on the next page, and will not be affected by this balancing.
+					if (itr.page_pos() == page_pos) {
+						if (itr.item_pos() != vmem_item_pos_nil) {
+							result.iterator = iterator(this, prev_page.pos(), itr.item_pos() + prev_container_page->item_count, vmem_iterator_edge::none, _log);
+						}
+						else {
+							result.iterator = iterator(this, prev_page.pos(), itr.item_pos(), itr.edge(), _log);
+						}
 					}
-				}
 
-				// Update the item count on the previous page.
-				prev_container_page->item_count += container_page->item_count;
+					// Update the item count on the previous page.
+					prev_container_page->item_count += page_item_count;
+				}
+				else {
+					result = result2();
+					result.iterator = itr;
+				}
 
-				// Free this page.
-				erase_page(page);
 				container_page = nullptr;
 			}
 		}
@@ -1075,8 +1093,11 @@ namespace abc {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 
 		vmem_linked_iterator<Pool, Log> itr(&linked, page_pos, vmem_item_pos_nil, vmem_iterator_edge::none, _log);
-		linked.erase(itr);
-		bool ok = true;
+		bool is_back_page = _state->back_page_pos == page_pos;
+		vmem_linked_iterator<Pool, Log> next_itr = linked.erase(itr);
+
+		// When a page cannot be unlinked, the end is returned and the list remains as it was.
+		bool ok = is_back_page ? _state->back_page_pos != page_pos : next_itr != linked.end();
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x1047c, "vmem_container::erase_page_pos() Done. ok=%d, page_pos=0x%llx",
-- 
2.43.0


From 106aa8127c3985dbdb72668eb0400d6f259971bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 46/80] fix: inserting behind the last item of a full page uses
 the new page

---
 src/x/vmem_container.x.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 28c5274..cff0a38 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -517,7 +517,8 @@ namespace abc {
 
 		// Decide whether we should balance before we alter container_page.
 		// An item that is to be inserted before other items on this page always needs room on this page.
-		bool balance = itr.item_pos() != vmem_item_pos_nil || (page_capacity() > 1 && should_balance_insert(itr, container_page));
+		bool is_before_item = itr.item_pos() != vmem_item_pos_nil && itr.item_pos() < container_page->item_count;
+		bool balance = is_before_item || (page_capacity() > 1 && should_balance_insert(itr, container_page));
 
 		vmem_page<Pool, Log> new_page(nullptr);
 		vmem_container_page<T, Header>* new_container_page = nullptr;
@@ -528,7 +529,7 @@ namespace abc {
 				balance_split(itr.page_pos(), container_page, new_page.pos(), new_container_page);
 			}
 
-			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count) {
+			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count && container_page->item_count < page_capacity()) {
 				// Inserting to the former page.
 				result = insert_with_capacity(itr, item, container_page);
 			}
-- 
2.43.0


From cf63cf4583a0b82655a2172d4f964e56db581f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 47/80] fix: a root dir that is missing or too long does not
 corrupt the path of a request

---
 src/endpoint.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b533685..dcab4c8 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -52,6 +52,11 @@ namespace abc {
 		, _log(log)
 		, _requests_in_progress(0)
 		, _is_shutdown_requested(false) {
+
+		// The path of a request starts with the root dir.
+		if (config->root_dir_len > Limits::resource_size) {
+			throw exception<std::logic_error, Log>("endpoint::endpoint(root_dir)", 0x107b4, log);
+		}
 	}
 
 
@@ -121,7 +126,7 @@ namespace abc {
 		}
 
 		char path[Limits::resource_size + 1];
-		std::strcpy(path, _config->root_dir);
+		std::strcpy(path, _config->root_dir != nullptr ? _config->root_dir : "");
 		char* resource = path + _config->root_dir_len;
 		http.get_resource(resource, sizeof(path) - _config->root_dir_len);
 		if (_log != nullptr) {
-- 
2.43.0


From 8bf6075fc1e418581e4fe540bbac6f9bf4fb36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 48/80] fix: a request cannot read files outside the root dir

---
 src/endpoint.h     | 23 ++++++++++++++++++++++-
 src/i/endpoint.i.h |  7 +++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index dcab4c8..23458ec 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -176,7 +176,7 @@ namespace abc {
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e4, "Received File Path = '%s'", path);
 		}
@@ -187,6 +187,12 @@ namespace abc {
 			return;
 		}
 
+		// The path must not lead out of the root dir.
+		if (has_parent_segment(resource)) {
+			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x107b5);
+			return;
+		}
+
 		// Check if the file exists.
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir);
@@ -335,6 +341,21 @@ namespace abc {
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::has_parent_segment(const char* resource) noexcept {
+		for (const char* parent = std::strstr(resource, ".."); parent != nullptr; parent = std::strstr(parent + 1, "..")) {
+			bool is_begin = parent == resource || parent[-1] == '/';
+			bool is_end = parent[2] == '/' || parent[2] == '\0';
+
+			if (is_begin && is_end) {
+				return true;
+			}
+		}
+
+		return false;
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::set_shutdown_requested() {
 		if (_log != nullptr) {
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 7cfb4b6..1da7952 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -318,6 +318,13 @@ namespace abc {
 		virtual const char* get_content_type_from_path(const char* path);
 
 	protected:
+		/**
+		 * @brief				Determines whether a resource contains a '..' segment, i.e. whether it could lead out of the root directory.
+		 * @param resource		Requested resource.
+		 * @return				`true` = yes. `false` = no.
+		 */
+		static bool has_parent_segment(const char* resource) noexcept;
+
 		/**
 		 * @brief				Processes (any kind of) a request.
 		 * @details				This is the top-level method that reads the http request line, and calls either `process_file_request()` or `process_rest_request()`.
-- 
2.43.0


From 9501a3561df01d211ed5d7f3bd39e9a55af50b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 49/80] fix: the body of a file response has the length of the
 Content-Length header

---
 src/endpoint.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 23458ec..36e5c65 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -200,9 +200,10 @@ namespace abc {
 
 		struct stat st;
 		int err = ::stat(path, &st);
+		std::ifstream file(path);
 
-		// If the file was not opened, return 404.
-		if (err != 0) {
+		// If the file was not opened, or if it is not a file, return 404.
+		if (err != 0 || !S_ISREG(st.st_mode) || !file.is_open()) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
@@ -234,10 +235,12 @@ namespace abc {
 		http.put_header_value(fsize_buffer);
 		http.end_headers();
 
-		std::ifstream file(path);
+		// Never send more than Content-Length, even if the file has grown.
 		char file_chunk[Limits::file_chunk_size];
-		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
-			file.read(file_chunk, sizeof(file_chunk));
+		std::size_t chunk_size = 0;
+		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += chunk_size) {
+			chunk_size = fsize - sent_size < sizeof(file_chunk) ? fsize - sent_size : sizeof(file_chunk);
+			file.read(file_chunk, chunk_size);
 			http.put_body(file_chunk, file.gcount());
 		}
 	}
-- 
2.43.0


From 78d3e1d9e87f3892eda6134f6138bcb54f6bf6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 50/80] fix: the reason phrase of the default REST response is
 not its status code

---
 src/endpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 36e5c65..c17655d 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -256,7 +256,7 @@ namespace abc {
 			set_shutdown_requested();
 		}
 
-		send_simple_response(http, status_code::OK, status_code::OK, content_type::text, "TODO: Override process_rest_request().", 0x102eb);
+		send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, "TODO: Override process_rest_request().", 0x102eb);
 	}
 
 
-- 
2.43.0


From 4790ddaf4c06d9cbda43a677219fcefd50776d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:58 +0000
Subject: [PATCH 51/80] fix: shutdown completes once, after the last request

---
 src/endpoint.h     | 17 +++++++++++++----
 src/i/endpoint.i.h | 10 ++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index c17655d..bfaa3ef 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -51,7 +51,8 @@ namespace abc {
 		: _config(config)
 		, _log(log)
 		, _requests_in_progress(0)
-		, _is_shutdown_requested(false) {
+		, _is_shutdown_requested(false)
+		, _is_shutdown_completed(false) {
 
 		// The path of a request starts with the root dir.
 		if (config->root_dir_len > Limits::resource_size) {
@@ -139,13 +140,15 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e1, "Received Protocol = '%s'", protocol);
 		}
 
+		// Requests must be counted before checking for shutdown. Otherwise, shutdown may complete while this request is being handled.
+		++_requests_in_progress;
+
 		// It's OK to read a request as long as we don't return a broken response.
 		if (_is_shutdown_requested) {
+			end_request();
 			return;
 		}
 
-		++_requests_in_progress;
-
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
@@ -164,7 +167,13 @@ namespace abc {
 			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 		}
 
-		if (--_requests_in_progress == 0 && _is_shutdown_requested) {
+		end_request();
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::end_request() {
+		if (--_requests_in_progress == 0 && _is_shutdown_requested && !_is_shutdown_completed.exchange(true)) {
 			if (_log != nullptr) {
 				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 1da7952..5569e48 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -353,6 +353,11 @@ namespace abc {
 		 */
 		static void process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket&& connection);
 
+		/**
+		 * @brief				Counts off a request that has been processed, and signals the promise when shutdown is completed.
+		 */
+		void end_request();
+
 	protected:
 		/**
 		 * @brief				The config settings pass in to the constructor.
@@ -379,6 +384,11 @@ namespace abc {
 		 * @brief				Flag that gets set when `POST /shutdown` is received.
 		 */
 		std::atomic_bool _is_shutdown_requested;
+
+		/**
+		 * @brief				Flag that gets set when the promise is signaled, which may happen only once.
+		 */
+		std::atomic_bool _is_shutdown_completed;
 	};
 
 
-- 
2.43.0


From deeb0209ac352a6902c6f9fbe71224ed3060ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:35 +0000
Subject: [PATCH 52/80] fix: a missing root dir is not passed to the log

---
 src/endpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index bfaa3ef..9c3d228 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -204,7 +204,7 @@ namespace abc {
 
 		// Check if the file exists.
 		if (_log != nullptr) {
-			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir);
+			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir != nullptr ? _config->root_dir : "");
 		}
 
 		struct stat st;
-- 
2.43.0


From 6df122a09c7a8a38252e8d5462c9a81693b7975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 53/80] fix: the name of a file is not cut off when the folder
 is the longest

---
 src/multifile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index be5892a..fac1a53 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -70,7 +70,7 @@ namespace abc {
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline multifile_streambuf<MaxPath, Clock, Log>::multifile_streambuf(multifile_streambuf&& other) noexcept
 		: base(std::move(other)) {
-		std::strncpy(_path, other._path, MaxPath);
+		std::memcpy(_path, other._path, sizeof(_path));
 		_path_length = other._path_length;
 		_mode = other._mode;
 		_log = other._log;
@@ -92,7 +92,7 @@ namespace abc {
 		}
 
 		timestamp<Clock> ts;
-		std::snprintf(_path + _path_length, MaxPath - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
+		std::snprintf(_path + _path_length, sizeof(_path) - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
 
 		std::filebuf* op = base::open(_path, _mode);
 
-- 
2.43.0


From bfe3d25296db04e9df6275fdb4c6a4ca1567de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 54/80] fix: an empty folder does not read before its name

---
 src/multifile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multifile.h b/src/multifile.h
index fac1a53..62f6413 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -59,7 +59,7 @@ namespace abc {
 		}
 
 		std::strncpy(_path, path, _path_length);
-		if (_path[_path_length - 1] != path_separator) {
+		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
 			_path[_path_length++] = path_separator;
 		}
 
-- 
2.43.0


From 380c0b74d24e6a5ea7667d94f7956c5fa436f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 55/80] fix: a file that fails to sync is not replaced

---
 src/multifile.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index 62f6413..c15b314 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -129,7 +129,9 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int duration_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		base::sync();
+		if (base::sync() != 0) {
+			return -1;
+		}
 
 		timestamp<Clock> ts;
 		if (ts - _ts >= _duration) {
@@ -171,7 +173,9 @@ namespace abc {
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
 		_current_size += pcount();
 
-		base::sync();
+		if (base::sync() != 0) {
+			return -1;
+		}
 
 		if (_current_size >= _size) {
 			reopen();
-- 
2.43.0


From baf84d66f819cecf47020d4ff68ffa589d09be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 56/80] fix: chars that go to a file are counted once

---
 src/i/multifile.i.h |  6 ++++++
 src/multifile.h     | 26 ++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/i/multifile.i.h b/src/i/multifile.i.h
index 12267f7..342162f 100644
--- a/src/i/multifile.i.h
+++ b/src/i/multifile.i.h
@@ -206,6 +206,12 @@ namespace abc {
 		 */
 		virtual std::streamsize xsputn(const char* s, std::streamsize count) override;
 
+		/**
+		 * @brief				Handler that counts the chars that leave the buffer when it is full.
+		 * @param ch			Char to put out.
+		 */
+		virtual std::streambuf::int_type overflow(std::streambuf::int_type ch) override;
+
 		/**
 		 * @brief				Handler that checks the size, and calls `reopen()` if needed.
 		 */
diff --git a/src/multifile.h b/src/multifile.h
index c15b314..64dfa98 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -163,20 +163,38 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline std::streamsize size_multifile_streambuf<MaxPath, Clock, Log>::xsputn(const char* s, std::streamsize count) {
-		_current_size += count;
+		// Count only what goes to the file. What stays in the buffer gets counted when it leaves the buffer.
+		std::size_t before_size = _current_size + pcount();
+		std::streamsize put = base::xsputn(s, count);
+		_current_size = before_size + put - pcount();
 
-		return base::xsputn(s, count);
+		return put;
 	}
 
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
-	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		_current_size += pcount();
+	inline std::streambuf::int_type size_multifile_streambuf<MaxPath, Clock, Log>::overflow(std::streambuf::int_type ch) {
+		std::size_t before_size = _current_size + pcount();
+		std::streambuf::int_type put = base::overflow(ch);
+
+		if (!std::streambuf::traits_type::eq_int_type(put, std::streambuf::traits_type::eof())) {
+			std::size_t put_count = std::streambuf::traits_type::eq_int_type(ch, std::streambuf::traits_type::eof()) ? 0 : 1;
+			_current_size = before_size + put_count - pcount();
+		}
+
+		return put;
+	}
 
+
+	template <std::size_t MaxPath, typename Clock, typename Log>
+	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
+		std::size_t before_size = _current_size + pcount();
 		if (base::sync() != 0) {
 			return -1;
 		}
 
+		_current_size = before_size;
+
 		if (_current_size >= _size) {
 			reopen();
 		}
-- 
2.43.0


From 9e2ab45f91b37858327da7e73db249a06c9e5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 57/80] fix: gpio_smbus: report failures without a log; reject
 blocks that are too long

---
 src/x/gpio_smbus.x.h | 88 ++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index f2412b3..4242ebb 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,9 +130,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_ioctl_data msg{ };
@@ -143,9 +143,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -161,9 +161,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -178,9 +178,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -196,9 +196,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -213,9 +213,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -231,17 +231,17 @@ namespace abc {
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -257,9 +257,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -275,9 +275,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -290,9 +290,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -311,18 +311,18 @@ namespace abc {
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f2, "gpio_smbus::get_noreg_2() byte0 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		std::uint8_t byte1;
 		if (!get_noreg(target, byte1)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f3, "gpio_smbus::get_noreg_2() byte1 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);
@@ -340,9 +340,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -356,9 +356,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -376,9 +376,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -392,9 +392,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? swap_bytes(data.word) : data.word;
@@ -412,9 +412,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -429,17 +429,17 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (data.block[0] > size) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fd, "gpio_smbus::get_block() block[0] = %d, size = %d", data.block[0], (int)size);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		size = data.block[0];
@@ -458,18 +458,18 @@ namespace abc {
 		if (_addr == addr) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::debug, 0x106ff, "gpio_smbus::ensure_address() Skip.");
-
-				return true;
 			}
+
+			return true;
 		}
 
 		long laddr = addr;
 		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		_addr = addr;
-- 
2.43.0


From cab0ba77af8038c15d8fefe9ca0d4ce5084a6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 58/80] fix: gpio_smbus: close the descriptor when the
 functionality cannot be queried

---
 src/x/gpio_smbus.x.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 4242ebb..1c89e62 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -98,6 +98,9 @@ namespace abc {
 		}
 
 		if (safe_ioctl(I2C_FUNCS, &_functionality) < 0) {
+			close(_fd);
+			_fd = -1;
+
 			throw exception<std::logic_error, Log>("gpio_smbus::gpio_smbus() I2C_FUNCS failed", 0x106df);
 		}
 
-- 
2.43.0


From e4b81ea694ef1358aa2df188351e02ff9e269b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 59/80] fix: gpio_smbus: report a lock failure as a failure

---
 src/x/gpio_smbus.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 1c89e62..dd66e70 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -493,7 +493,8 @@ namespace abc {
 			return ioctl(_fd, command, arg);
 		}
 		catch (...) {
-			return ENOLCK;
+			errno = ENOLCK;
+			return -1;
 		}
 	}
 
-- 
2.43.0


From 8d02c22ad50c527b7280289dbcad17f6fc4188fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 60/80] fix: gpio_smbus: set the address and transfer under one
 lock

---
 src/i/gpio_smbus.i.h |   8 ++++
 src/x/gpio_smbus.x.h | 101 ++++++++++++-------------------------------
 2 files changed, 36 insertions(+), 73 deletions(-)

diff --git a/src/i/gpio_smbus.i.h b/src/i/gpio_smbus.i.h
index 4cb6f20..36c5743 100644
--- a/src/i/gpio_smbus.i.h
+++ b/src/i/gpio_smbus.i.h
@@ -202,6 +202,14 @@ namespace abc {
 		template <typename Arg>
 		int safe_ioctl(int command, Arg arg) noexcept;
 
+		/**
+		 * @brief					Sets the target address, and performs an I2C_SMBUS `ioctl` under a single lock.
+		 * @param addr				Device address.
+		 * @param msg				Message.
+		 * @return					`ioctl`'s return value; -1 if the address could not be set or the lock could not be taken.
+		 */
+		int safe_transfer(gpio_smbus_address_t addr, i2c_smbus_ioctl_data* msg) noexcept;
+
 	private:
 		/**
 		 * @brief						Swap the bytes of a word.
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index dd66e70..07cd4d8 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,20 +130,12 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_nodata(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_ioctl_data msg{ };
 		msg.read_write = I2C_SMBUS_WRITE;
 		msg.command = reg;
 		msg.size = I2C_SMBUS_BYTE;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -161,14 +153,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t byte) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.byte = byte;
 
@@ -178,7 +162,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BYTE_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -196,14 +180,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t word) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.word = target.requires_byte_swap() ? swap_bytes(word) : word;
 
@@ -213,7 +189,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_WORD_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -239,14 +215,6 @@ namespace abc {
 			return false;
 		}
 
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.block[0] = static_cast<std::uint8_t>(size);
 		std::memmove(&data.block[1], block, size);
@@ -257,7 +225,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BLOCK_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -275,14 +243,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 
 		i2c_smbus_ioctl_data msg{ };
@@ -290,7 +250,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BYTE;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -340,14 +300,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t& byte) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 
 		i2c_smbus_ioctl_data msg{ };
@@ -356,7 +308,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BYTE_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -376,14 +328,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t& word) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 
 		i2c_smbus_ioctl_data msg{ };
@@ -392,7 +336,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_WORD_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -412,14 +356,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, void* block, std::size_t& size) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.block[0] = static_cast<std::uint8_t>(size);
 
@@ -429,7 +365,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BLOCK_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (safe_transfer(target.address(), &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -467,7 +403,7 @@ namespace abc {
 		}
 
 		long laddr = addr;
-		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
+		if (ioctl(_fd, I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
 			}
@@ -499,6 +435,25 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline int gpio_smbus<Log>::safe_transfer(gpio_smbus_address_t addr, i2c_smbus_ioctl_data* msg) noexcept {
+		try {
+			// The address must not change between the moment it is set and the moment the transfer is done.
+			std::lock_guard<std::mutex> lock(_ioctl_mutex);
+
+			if (!ensure_address(addr)) {
+				return -1;
+			}
+
+			return ioctl(_fd, I2C_SMBUS, msg);
+		}
+		catch (...) {
+			errno = ENOLCK;
+			return -1;
+		}
+	}
+
+
 	template <typename Log>
 	inline std::uint16_t gpio_smbus<Log>::swap_bytes(std::uint16_t word) noexcept {
 		std::uint16_t lo = word & 0x00ff;
-- 
2.43.0


From a51b078d7ff48c71d60cf8fd7a74bb80aad625c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 61/80] fix: gpio_line: a move passes the descriptor on

---
 src/i/gpio_line.i.h | 2 +-
 src/x/gpio_line.x.h | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/i/gpio_line.i.h b/src/i/gpio_line.i.h
index 1452d49..f5703ff 100644
--- a/src/i/gpio_line.i.h
+++ b/src/i/gpio_line.i.h
@@ -53,7 +53,7 @@ namespace abc {
 		/**
 		 * @brief			Move constructor.
 		 */
-		gpio_line(gpio_line<Log>&& other) noexcept = default;
+		gpio_line(gpio_line<Log>&& other) noexcept;
 
 		/**
 		 * @brief			Deleted.
diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 845c69e..35445e3 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -88,6 +88,14 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline gpio_line<Log>::gpio_line(gpio_line<Log>&& other) noexcept
+		: _fd(other._fd)
+		, _log(other._log) {
+		other._fd = -1;
+	}
+
+
 	template <typename Log>
 	inline gpio_line<Log>::~gpio_line() noexcept {
 		if (_fd >= 0) {
-- 
2.43.0


From 7566222cd4e2380e9dd9b377ff5e76be00f6c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 62/80] fix: gpio_line: close descriptors when the constructor
 fails

---
 src/x/gpio_line.x.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 35445e3..d5fda4c 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -73,10 +73,12 @@ namespace abc {
 
 		int ret = ioctl(fd, gpio_ioctl::get_line, &line_request);
 		if (ret < 0) {
+			close(fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() ioctl() < 0", 0x106cb);
 		}
 
 		if (close(fd) < 0) {
+			close(line_request.fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() close(fd) < 0", 0x106cc);
 		}
 
-- 
2.43.0


From 4656ba334b3fb4df09c7c565c27d44f1061cd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 63/80] fix: gpio_smbus_pwm: no division by zero

---
 src/x/gpio_smbus_pwm.x.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus_pwm.x.h b/src/x/gpio_smbus_pwm.x.h
index 76b264f..c8c9d0e 100644
--- a/src/x/gpio_smbus_pwm.x.h
+++ b/src/x/gpio_smbus_pwm.x.h
@@ -63,6 +63,14 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() smbus == nullptr", 0x10706);
 		}
 
+		if (frequency == 0) {
+			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() frequency == 0", 0x107b6);
+		}
+
+		if (frequency > _smbus_target.clock_frequency()) {
+			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() frequency > clock_frequency", 0x107b7);
+		}
+
 		// Adjust min/max_pulse_width to lock frequency.
 		if (_max_pulse_width != 0) {
 			if (log != nullptr) {
@@ -173,7 +181,13 @@ namespace abc {
 			autoreload_bit_count++;
 		}
 
-		return static_cast<gpio_smbus_clock_frequency_t>(((1ULL << autoreload_bit_count) / 1000ULL) * 1000ULL);
+		// Round down to thousands, unless that gives 0 or the prescaler would be 0.
+		std::uint64_t autoreload = 1ULL << autoreload_bit_count;
+		if (autoreload > 1000ULL) {
+			autoreload = (autoreload / 1000ULL) * 1000ULL;
+		}
+
+		return static_cast<gpio_smbus_clock_frequency_t>(autoreload < period ? autoreload : period);
 	}
 
 
-- 
2.43.0


From 1569083fb4efc8465175c62f65e7becd4d8c01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 64/80] fix: gpio_smbus_motion: calibrate without a log

---
 src/x/gpio_smbus_motion.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index 80884b6..b6a053d 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -82,8 +82,10 @@ namespace abc {
 				continue;
 			}
 
-			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-				mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			if (_log != nullptr) {
+				_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
+					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			}
 
 			measurements.accel_x += temp.accel_x;
 			measurements.accel_y += temp.accel_y;
-- 
2.43.0


From f44716a463d137545ee6e85176e0073e51e3b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 65/80] fix: gpio_smbus_motion: a failed read measures nothing

---
 src/x/gpio_smbus_motion.x.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index b6a053d..c93adbf 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -131,38 +131,45 @@ namespace abc {
 		std::uint16_t temp_ui16;
 
 		if ((mask & gpio_smbus_motion_channel::accel_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16);
-			measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16)) {
+				measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16);
-			measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16)) {
+				measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16);
-			measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16)) {
+				measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16);
-			measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16)) {
+				measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16);
-			measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16)) {
+				measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16);
-			measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16)) {
+				measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::temperature) != 0) {
-			_smbus->get_word(_smbus_target, reg_temperature, temp_ui16);
-			measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_temperature, temp_ui16)) {
+				measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From 5eb45b6783a8672f6555d9ef90ca82968e019f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 66/80] fix: gpio_smbus_motion: sums of calibration fit

---
 src/x/gpio_smbus_motion.x.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index c93adbf..0f33f23 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -68,7 +68,13 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motion<Log>::calibrate(gpio_smbus_motion_channel_t mask) noexcept {
-		gpio_smbus_motion_measurements measurements{ };
+		// A sum of measurements does not fit in a measurement.
+		std::int32_t sum_accel_x = 0;
+		std::int32_t sum_accel_y = 0;
+		std::int32_t sum_accel_z = 0;
+		std::int32_t sum_gyro_x = 0;
+		std::int32_t sum_gyro_y = 0;
+		std::int32_t sum_gyro_z = 0;
 
 		constexpr int reps_skip = 5;
 		constexpr int reps_take = 20;
@@ -87,22 +93,22 @@ namespace abc {
 					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
 			}
 
-			measurements.accel_x += temp.accel_x;
-			measurements.accel_y += temp.accel_y;
-			measurements.accel_z += temp.accel_z;
+			sum_accel_x += temp.accel_x;
+			sum_accel_y += temp.accel_y;
+			sum_accel_z += temp.accel_z;
 
-			measurements.gyro_x += temp.gyro_x;
-			measurements.gyro_y += temp.gyro_y;
-			measurements.gyro_z += temp.gyro_z;
+			sum_gyro_x += temp.gyro_x;
+			sum_gyro_y += temp.gyro_y;
+			sum_gyro_z += temp.gyro_z;
 		}
 
-		_calibration.accel_x = measurements.accel_x / reps_take;
-		_calibration.accel_y = measurements.accel_y / reps_take;
-		_calibration.accel_z = measurements.accel_z / reps_take;
+		_calibration.accel_x = sum_accel_x / reps_take;
+		_calibration.accel_y = sum_accel_y / reps_take;
+		_calibration.accel_z = sum_accel_z / reps_take;
 
-		_calibration.gyro_x = measurements.gyro_x / reps_take;
-		_calibration.gyro_y = measurements.gyro_y / reps_take;
-		_calibration.gyro_z = measurements.gyro_z / reps_take;
+		_calibration.gyro_x = sum_gyro_x / reps_take;
+		_calibration.gyro_y = sum_gyro_y / reps_take;
+		_calibration.gyro_z = sum_gyro_z / reps_take;
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074f, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-- 
2.43.0


From 4085757948399e5ec7def2048599015416aa9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 67/80] fix: gpio_ultrasonic: every measurement waits for its
 own distance

---
 src/x/gpio_ultrasonic.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/gpio_ultrasonic.x.h b/src/x/gpio_ultrasonic.x.h
index 06a82e2..e7efb5c 100644
--- a/src/x/gpio_ultrasonic.x.h
+++ b/src/x/gpio_ultrasonic.x.h
@@ -52,7 +52,7 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline std::size_t gpio_ultrasonic<DistanceScale, Log>::measure_distance(std::size_t max_distance) const noexcept {
-		static const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
+		const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
 
 		// Clear and send a pulse.
 		_trigger_line.put_level(gpio_level::low, microseconds(10));
-- 
2.43.0


From 4b5f725a81fae16781de7e8161dbb7e8817754fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 68/80] fix: gpio_smbus_motion_tracker: start the thread once
 the arguments are good

---
 src/x/gpio_smbus_motion_tracker.x.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 0b12045..9746d9a 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -44,7 +44,7 @@ namespace abc {
 		, _run(false)
 		, _quit(false)
 		, _log(log)
-		, _thread(thread_func, this) {
+		, _thread() {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10753, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Start.");
 		}
@@ -53,6 +53,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() motion", 0x10754);
 		}
 
+		// The thread uses the members. Start it once they are good.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10755, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Done.");
 		}
-- 
2.43.0


From 203999772add0268f8ca50574da3f5268d0ff9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 69/80] fix: gpio_smbus_motion_tracker: no wake-up is lost

---
 src/x/gpio_smbus_motion_tracker.x.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 9746d9a..99a10a4 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -68,7 +68,11 @@ namespace abc {
 			_log->put_any(category::abc::gpio, severity::abc::optional, 0x10756, "gpio_smbus_motion_tracker::~gpio_smbus_motion_tracker() Start.");
 		}
 
-		_quit = true;
+		// The thread checks the control variables under the mutex before it goes to sleep.
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_quit = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -90,7 +94,11 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::start() {
-		_run = true;
+		// The thread checks the control variables under the mutex before it goes to sleep.
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_run = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -194,7 +202,7 @@ namespace abc {
 				// Sleep until the owning instance fires the condition.
 				{
 					std::unique_lock<std::mutex> lock(this_ptr->_control_mutex);
-					this_ptr->_control_condition.wait(lock);
+					this_ptr->_control_condition.wait(lock, [this_ptr]() { return this_ptr->_quit || this_ptr->_run; });
 
 					quit = this_ptr->_quit;
 					run = this_ptr->_run;
-- 
2.43.0


From 77de52e7b92ac62b0367d5f3a97de3311d6cb61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 70/80] fix: gpio_pwm_emulator: start the thread once the
 arguments are good

---
 src/x/gpio_pwm_emulator.x.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index e1b7739..2bc3acd 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -47,7 +47,7 @@ namespace abc {
 		, _duty_cycle(0)
 		, _quit(false)
 		, _log(log)
-		, _thread(thread_func, this) {
+		, _thread() {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106ce, "gpio_pwm_emulator::gpio_pwm_emulator() Start.");
 		}
@@ -60,6 +60,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() max_pulse_width", 0x106d0);
 		}
 
+		// The thread uses the members. Start it once they are good.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106d1, "gpio_pwm_emulator::gpio_pwm_emulator() Done.");
 		}
-- 
2.43.0


From 1c91f6f8eee1e5bad79a5ed7aae4885696a08cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 71/80] fix: gpio_pwm_emulator: reject a frequency of 0

---
 src/i/gpio_pwm_base.i.h     | 2 +-
 src/x/gpio_pwm_emulator.x.h | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/i/gpio_pwm_base.i.h b/src/i/gpio_pwm_base.i.h
index fd521ad..3fe73c6 100644
--- a/src/i/gpio_pwm_base.i.h
+++ b/src/i/gpio_pwm_base.i.h
@@ -54,7 +54,7 @@ namespace abc {
 	 * @param frequency	Frequency in Hz (ticks per second).
 	 */
 	constexpr gpio_pwm_duration gpio_pwm_period(gpio_pwm_pulse_frequency_t frequency) noexcept {
-		return gpio_pwm_duration(gpio_pwm_duration::period::den / frequency);
+		return gpio_pwm_duration(frequency != 0 ? gpio_pwm_duration::period::den / frequency : 0);
 	}
 
 
diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index 2bc3acd..a8f42d6 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -52,6 +52,10 @@ namespace abc {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106ce, "gpio_pwm_emulator::gpio_pwm_emulator() Start.");
 		}
 
+		if (frequency == 0) {
+			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() frequency == 0", 0x107b8);
+		}
+
 		if (min_pulse_width > max_pulse_width) {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() min_pulse_width", 0x106cf);
 		}
-- 
2.43.0


From 6204b39e5807c85432c3044b956c6658cca9ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:56 +0000
Subject: [PATCH 72/80] fix: February 29 of a leap year is not March 1

---
 src/timestamp.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 1f78ae2..5cf8993 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -212,12 +212,12 @@ namespace abc {
 		if (remaining_days >= days_per_1_year_leap) {
 			year++;
 			remaining_days -= days_per_1_year_leap;
-		}
 
-		// The remaining year(s) are not leap.
-		if (remaining_days >= days_per_1_year) {
-			year += (remaining_days / days_per_1_year);
-			remaining_days = remaining_days % days_per_1_year;
+			// The remaining year(s) are not leap.
+			if (remaining_days >= days_per_1_year) {
+				year += (remaining_days / days_per_1_year);
+				remaining_days = remaining_days % days_per_1_year;
+			}
 		}
 
 		// The remaining days are within 1 year (and we are based at Mar 1).
-- 
2.43.0


From 6a086170ac1963c6a904efde865379deb2431b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 73/80] fix: dates after a century that is not leap are not off
 by a day

---
 src/timestamp.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 5cf8993..b804dc9 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -71,6 +71,7 @@ namespace abc {
 	static constexpr date_count_t days_per_100_years_leap = 25 * days_per_4_years;
 	static constexpr date_count_t days_per_100_years = days_per_100_years_leap - 1;
 	static constexpr date_count_t days_per_400_years = days_per_100_years_leap + 3 * days_per_100_years;
+	static constexpr date_count_t days_until_century_leap = 7 * days_per_4_years + days_per_1_year + days_per_1_year; // Mar 1, 2070 - Feb 28, 2100
 
 
 	// --------------------------------------------------------------
@@ -188,12 +189,12 @@ namespace abc {
 		if (remaining_days >= days_per_100_years_leap) {
 			year += 100;
 			remaining_days -= days_per_100_years_leap;
-		}
 
-		// The following century boundaries are not leap.
-		// We artificailly make them leap.
-		if (remaining_days >= days_per_100_years) {
-			remaining_days += (remaining_days / days_per_100_years);
+			// The following century boundaries are not leap.
+			// We artificailly make them leap from their phantom Feb 29 on.
+			if (remaining_days >= days_until_century_leap) {
+				remaining_days += 1 + ((remaining_days - days_until_century_leap) / days_per_100_years);
+			}
 		}
 
 		// Now we have homogenious 4-year chunks.
-- 
2.43.0


From f4882627edcacea0fe551939fe967a1f934fdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 74/80] fix: a moved buffer_streambuf keeps its positions

---
 src/buffer_streambuf.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..fd1874c 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -111,6 +111,8 @@ namespace abc {
 	template <typename Char>
 	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
 		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		base::setg(other.eback(), other.gptr(), other.egptr());
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 	}
 
 
-- 
2.43.0


From 3d60ad1acd1a7e48f5200d53611138f478eb7185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 75/80] fix: a character 0xff of a vmem_string is not its end

---
 src/x/vmem_string.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 548aa61..ed5c4bc 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -83,7 +83,7 @@ namespace abc {
 
 		base::setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return std::char_traits<Char>::to_int_type(_get_ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From cdc15a8d669071a4fc2455e5cd8e438eb47b93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 76/80] fix: vmem_string_streambuf appends each character once,
 and no end of file

---
 src/x/vmem_string.x.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index ed5c4bc..7a083fa 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -88,12 +88,13 @@ namespace abc {
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
-		_string->push_back(_put_ch);
-		_string->push_back(ch);
+		sync();
 
-		base::setp(&_put_ch, &_put_ch + 1);
+		if (!std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
+			_string->push_back(std::char_traits<Char>::to_char_type(ch));
+		}
 
-		return ch;
+		return std::char_traits<Char>::not_eof(ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From 2286b65c636a4e25707e65ad78608bc430d143c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 77/80] fix: a moved vmem_string_streambuf keeps the characters
 it holds

---
 src/x/vmem_string.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 7a083fa..52de431 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -57,8 +57,9 @@ namespace abc {
 		, _get_itr(std::move(other._get_itr))
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		base::setg(&_get_ch, &_get_ch + 1, &_get_ch + 1);
+		base::setg(&_get_ch, other.gptr() != other.egptr() ? &_get_ch : &_get_ch + 1, &_get_ch + 1);
 		base::setp(&_put_ch, &_put_ch + 1);
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._string = nullptr;
 		other._log = nullptr;
-- 
2.43.0


From 69548d3587f5a5423a90c471c8f2cfe84e79472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:05 +0000
Subject: [PATCH 78/80] fix: a map finds the keys of the page whose number is
 the nil item position

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index a5bcfb7..a5c280a 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -801,7 +801,7 @@ namespace abc {
 
 		result.ok = found;
 
-		if (page_pos != vmem_item_pos_nil && item_pos != vmem_item_pos_nil) {
+		if (page_pos != vmem_page_pos_nil && item_pos != vmem_item_pos_nil) {
 			result.iterator = iterator(this, page_pos, item_pos, vmem_iterator_edge::none, _log);
 		}
 
-- 
2.43.0


From eacaa26bce7554c7e26785cee9a04ad4bd411e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:30 +0000
Subject: [PATCH 79/80] fix: a constant map can be searched

---
 src/x/vmem_map.x.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index a5c280a..4e4d275 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -823,7 +823,7 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_iterator vmem_map<Key, T, Pool, Log>::find(const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>>(this)->find(key);
+		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->find(key);
 	}
 
 
@@ -841,7 +841,7 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_pointer vmem_map<Key, T, Pool, Log>::operator [](const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->operator[](key);
+		return find(key).operator->();
 	}
 
 
@@ -854,7 +854,8 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_pointer vmem_map<Key, T, Pool, Log>::at(const iterator_state& itr) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->at(itr);
+		pointer ptr = const_cast<vmem_map<Key, T, Pool, Log>*>(this)->at(itr);
+		return const_pointer(_pool, ptr.page_pos(), ptr.byte_pos(), _log);
 	}
 
 
-- 
2.43.0


From 3252aa8f47aef73f822c12a63d7ab1f371e35469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:44 +0000
Subject: [PATCH 80/80] fix: inserting into a map whose page cannot be loaded
 fails instead of terminating the process

---
 src/x/vmem_map.x.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 4e4d275..1290a99 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -263,7 +263,10 @@ namespace abc {
 				_log->put_any(category::abc::vmem, severity::abc::important, 0x10515, "vmem_map::insert2(item) Not found.");
 			}
 
-			result = insert2(std::move(find_result), item);
+			// No position is only good for an empty map. Otherwise, a page could not be loaded.
+			if (find_result.iterator.is_valid() || empty()) {
+				result = insert2(std::move(find_result), item);
+			}
 		}
 		else {
 			if (_log != nullptr) {
-- 
2.43.0

