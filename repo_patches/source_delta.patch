From d894d0127f56c4e256c66edf9bc2795293b5eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 01/12] fix: websocket does not pop more bytes than were read
 ahead

---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f77fcbc..e081c79 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -416,7 +416,7 @@ private:
     coroutine::Task<Res> recvLinkTimeout(std::span<char> buf) {
         auto size = _recvBuf.size();
         if (size) [[unlikely]] {
-            for (char& c : buf) {
+            for (char& c : buf.first(std::min(size, buf.size()))) {
                 c = _recvBuf.back();
                 _recvBuf.pop_back();
             }
@@ -459,7 +459,7 @@ private:
     coroutine::Task<> fullyRecv(std::span<char> buf) {
         auto size = _recvBuf.size();
         if (size) [[unlikely]] {
-            for (char& c : buf) {
+            for (char& c : buf.first(std::min(size, buf.size()))) {
                 c = _recvBuf.back();
                 _recvBuf.pop_back();
             }
-- 
2.43.0


From 314b3e11c4025ce4a02cec99f1367d2c7e5c2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 02/12] fix: websocket frame header split over two reads is
 completed

---
 .../HXLibs/net/protocol/websocket/WebSocket.hpp   | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index e081c79..37f6e98 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -427,9 +427,14 @@ private:
                 >(buf.size()));
                 co_return res;
             }
-            // @todo 此处偷懒了, 因为也没有使用到 get<0>() 的实际的值, 所以没有影响
-            // 但是不保证日后!
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(size));
+            auto res = co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(size));
+            if (res.index() == 0) [[likely]] {
+                // 返回的长度需要包含之前缓存的部分
+                if (auto& n = res.template get<0, exception::ExceptionMode::Nothrow>(); n > 0) {
+                    n += static_cast<int>(size);
+                }
+            }
+            co_return res;
         } else {
             co_return co_await _io.template recvLinkTimeout<Timeout>(buf);
         }
@@ -546,6 +551,10 @@ private:
                 // 超时 或者 出错
                 co_return std::nullopt;
             }
+            if (res.template get<0, exception::ExceptionMode::Nothrow>() < 2) [[unlikely]] {
+                // 只读取到一个字节, 需要补全头部
+                co_await fullyRecv(std::span<char>{reinterpret_cast<char*>(head) + 1, 1});
+            }
             uint8_t head0 = head[0];
             uint8_t head1 = head[1];
 
-- 
2.43.0


From bf61f0ca6739abcd922aeae2bb2a862b224e7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 03/12] fix: websocket control frames may arrive between the
 fragments of a message

---
 .../net/protocol/websocket/WebSocket.hpp      | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 37f6e98..18ab90d 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -391,6 +391,9 @@ private:
     // 缓存之前多读取的内容, 特别的, 原本头部的数据是在尾部! 应该使用 back() + pop_back() 进行遍历
     std::vector<char> _recvBuf;
 
+    // 被控制帧 (或超时) 打断的分片消息, 下次读取从这里继续
+    std::optional<WebSocketPacket> _fragment{};
+
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
@@ -542,6 +545,11 @@ private:
 
         // 记录第一帧数据内容
         OpCode firstOpCode{OpCode::Unknown};
+        if (_fragment) [[unlikely]] {
+            firstOpCode = _fragment->opCode;
+            packet.content = std::move(_fragment->content);
+            _fragment.reset();
+        }
         do {
             auto res = co_await recvLinkTimeout<Timeout>(
                 std::span<char>{reinterpret_cast<char*>(head), 2});
@@ -549,6 +557,9 @@ private:
              || res.template get<0, exception::ExceptionMode::Nothrow>() <= 0
             ) [[unlikely]] {
                 // 超时 或者 出错
+                if (firstOpCode != OpCode::Unknown) {
+                    _fragment = WebSocketPacket{firstOpCode, std::move(packet.content)};
+                }
                 co_return std::nullopt;
             }
             if (res.template get<0, exception::ExceptionMode::Nothrow>() < 2) [[unlikely]] {
@@ -575,6 +586,9 @@ private:
             if (static_cast<uint8_t>(packet.opCode) <= 2) {
                 // 合法的数据帧
                 if (firstOpCode == OpCode::Unknown) [[likely]] {
+                    if (packet.opCode == OpCode::Cont) [[unlikely]] {
+                        throw std::runtime_error{"Fragmentation Error: first OpCode == Cont"};
+                    }
                     // 第一包必然是这里
                     firstOpCode = packet.opCode;
                 } else if (packet.opCode != OpCode::Cont) [[unlikely]] {
@@ -593,7 +607,6 @@ private:
                     throw std::runtime_error{
                         "Control frame too big"};
                 }
-                firstOpCode = packet.opCode;
             } else [[unlikely]] {
                 // 其他保留值, 非法
                 throw std::runtime_error{"Unknown OpCode"};
@@ -619,6 +632,7 @@ private:
                 payloadLen = static_cast<std::size_t>(payloadLen8);
             }
 
+            std::string tmp;
             if constexpr (IsServer) {
                 // 获取掩码
                 uint8_t maskKeyArr[4];
@@ -628,7 +642,6 @@ private:
                 });
     
                 // 解析数据
-                std::string tmp;
                 tmp.resize(payloadLen);
                 co_await fullyRecv(tmp);
     
@@ -637,14 +650,20 @@ private:
                 for (std::size_t i = 0; i != len; ++i) {
                     p[i] ^= maskKeyArr[i % 4];
                 }
-                packet.content += std::move(tmp);
             } else {
                 // 解析数据
-                std::string tmp;
                 tmp.resize(payloadLen);
                 co_await fullyRecv(tmp);
-                packet.content += std::move(tmp);
             }
+
+            if (static_cast<uint8_t>(packet.opCode) >= 8) {
+                // 控制帧可以插入在分片之间, 不属于正在接收的消息
+                if (firstOpCode != OpCode::Unknown) [[unlikely]] {
+                    _fragment = WebSocketPacket{firstOpCode, std::move(packet.content)};
+                }
+                co_return WebSocketPacket{packet.opCode, std::move(tmp)};
+            }
+            packet.content += std::move(tmp);
         } while (!fin);
         packet.opCode = firstOpCode;
         co_return packet;
-- 
2.43.0


From 091d8513df8be39ab9127108aa820822a80a2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 04/12] fix: websocket read-ahead bytes survive a read timeout

---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 18ab90d..8ab65e6 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -419,11 +419,14 @@ private:
     coroutine::Task<Res> recvLinkTimeout(std::span<char> buf) {
         auto size = _recvBuf.size();
         if (size) [[unlikely]] {
-            for (char& c : buf.first(std::min(size, buf.size()))) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
+            auto popTo = [this](std::span<char> out) {
+                for (char& c : out) {
+                    c = _recvBuf.back();
+                    _recvBuf.pop_back();
+                }
+            };
             if (size >= buf.size()) {
+                popTo(buf);
                 Res res;
                 res.template emplace<0>(static_cast<
                     coroutine::AwaiterReturnType<coroutine::AioTask>
@@ -434,6 +437,8 @@ private:
             if (res.index() == 0) [[likely]] {
                 // 返回的长度需要包含之前缓存的部分
                 if (auto& n = res.template get<0, exception::ExceptionMode::Nothrow>(); n > 0) {
+                    // 读取成功才取走缓存, 超时 / 出错时不能丢失已缓存的数据
+                    popTo(buf.first(size));
                     n += static_cast<int>(size);
                 }
             }
-- 
2.43.0


From b92d3fbd882437386287b051f003a174edd22ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 05/12] fix: case conversion changes letters only

---
 include/HXLibs/utils/StringUtils.hpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index 6575e1a..f624951 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -159,16 +159,10 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toLower(std::string& str) {
-        size_t len = str.size();
-        size_t ec = len / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] |= 0x2020'2020'2020'2020;
-        }
-        uint8_t *p1 = (uint8_t *)(p8 + ec);
-        len %= 8;
-        for (size_t i = 0; i < len; ++i) {
-            p1[i] |= 0x20;
+        for (char& c : str) {
+            if (c >= 'A' && c <= 'Z') {
+                c = static_cast<char>(c | 0x20);
+            }
         }
     }
 
@@ -177,17 +171,11 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toUpper(std::string& str) {
-        if (str.empty())
-            return;
-        size_t len = str.size() + 1;
-        size_t alignlen = len + 8 - (len % 8);
-        str.resize(alignlen);
-        size_t ec = alignlen / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] &= 0xDFDF'DFDF'DFDF'DFDF;
+        for (char& c : str) {
+            if (c >= 'a' && c <= 'z') {
+                c = static_cast<char>(c & 0xDF);
+            }
         }
-        str.resize(len - 1);
     }
 
     /**
-- 
2.43.0


From 160710909e98c36083d6d81c3a0671f9f235dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 06/12] fix: base conversion does not index outside its table
 for bytes above 127

---
 include/HXLibs/utils/NumericBaseConverter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/utils/NumericBaseConverter.hpp b/include/HXLibs/utils/NumericBaseConverter.hpp
index 3e608ac..634d220 100644
--- a/include/HXLibs/utils/NumericBaseConverter.hpp
+++ b/include/HXLibs/utils/NumericBaseConverter.hpp
@@ -63,8 +63,8 @@ struct NumericBaseConverter {
                     // 未定义, 不支持
                     static_assert(!sizeof(T), "UB: Base > 36");
                 }
-                constexpr static std::array<char, 128> Benchmark = []() {
-                    std::array<char, 128> arr{};
+                constexpr static std::array<char, 256> Benchmark = []() {
+                    std::array<char, 256> arr{};
                     std::iota(arr.begin(), arr.end(), 0);
                     for (char c = '0'; c <= '9'; ++c)
                         arr[static_cast<std::size_t>(c)] = '0';
@@ -74,7 +74,7 @@ struct NumericBaseConverter {
                         arr[static_cast<std::size_t>(c)] = 'A' - 10;
                     return arr;
                 }();
-                res += static_cast<T>(*it - Benchmark[static_cast<std::size_t>(*it)]) * pow;
+                res += static_cast<T>(*it - Benchmark[static_cast<unsigned char>(*it)]) * pow;
             } else {
                 res += static_cast<T>(*it - '0') * pow;
             }
-- 
2.43.0


From 338eedd914ad2ff27154981a666d2c0f79377440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 07/12] fix: a URL without user:password has no account info

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 032bf0d..95f7cf8 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -117,8 +117,13 @@ struct UrlParse {
         if (findEnd == std::string_view::npos) {
             return std::nullopt;
         }
-        std::size_t findMid = url.rfind(':', findEnd - 1);
-        std::size_t findStart = url.rfind('/', findMid - 1);
+        std::size_t findMid = url.rfind(':', findEnd);
+        if (findMid == std::string_view::npos
+            || url.substr(findMid, findEnd - findMid).find('/') != std::string_view::npos
+        ) {
+            return std::nullopt; // '@' 之前没有 `用户名:密码`
+        }
+        std::size_t findStart = url.rfind('/', findMid);
         if (findStart == std::string_view::npos) {
             return std::optional{AccountInfo{
                 url.substr(0, findMid), 
-- 
2.43.0


From 731dd6b6a2b683c688d1662523aa74147d45f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 08/12] fix: the port text of a URL is not read past its end

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 95f7cf8..ae7cdc2 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -185,7 +185,7 @@ struct UrlParse {
         ) {
             return it->second;
         } else [[unlikely]] {
-            return static_cast<uint16_t>(std::stoi(protocol.data())); // 未知协议, 则假设它是端口
+            return static_cast<uint16_t>(std::stoi(std::string{protocol})); // 未知协议, 则假设它是端口
         }
     }
 };
-- 
2.43.0


From f479229eb0474e3389fa9e5efbd6c9183e9d9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 09/12] fix: user info and port of a URL are looked up in its
 authority only

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index ae7cdc2..60b2967 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -212,10 +212,13 @@ private:
 
     void parseUrl(std::string_view url) {
         std::size_t protocolFind = url.find("://");
-        std::size_t userFind = url.find('@', protocolFind == std::string_view::npos ? 0 : protocolFind + 1);
+        // 用户信息和端口只会出现在 authority 部分 (即 path / query / fragment 之前)
+        std::string_view authority = url.substr(0, url.find_first_of("/?#",
+            protocolFind == std::string_view::npos ? 0 : protocolFind + 3));
+        std::size_t userFind = authority.find('@', protocolFind == std::string_view::npos ? 0 : protocolFind + 1);
         if (userFind == std::string_view::npos)
             userFind = protocolFind;
-        std::size_t portFind = url.find(':', userFind == std::string_view::npos ? 0 : userFind + 1);
+        std::size_t portFind = authority.find(':', userFind == std::string_view::npos ? 0 : userFind + 1);
 
         if (protocolFind == std::string_view::npos && portFind == std::string_view::npos) {
             // 没有协议和端口，默认服务为 "http"
-- 
2.43.0


From 94f3d30e7697de28775c5bb7ec9cb9c371f835ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 10/12] fix: http bodies are decoded whole however they are
 split into reads

---
 include/HXLibs/net/protocol/http/Http.hpp     |  34 +++++
 include/HXLibs/net/protocol/http/Request.hpp  | 120 ++++++++----------
 include/HXLibs/net/protocol/http/Response.hpp |  60 ++++-----
 3 files changed, 118 insertions(+), 96 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index f1b959d..611b47f 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -24,6 +24,9 @@
 #include <unordered_map>
 #include <optional>
 #include <chrono>
+#include <stdexcept>
+
+#include <HXLibs/utils/NumericBaseConverter.hpp>
 
 namespace HX::net {
 
@@ -122,6 +125,37 @@ inline constexpr std::string_view getMethodStringView(HttpMethod const mthd) {
     }
 }
 
+namespace internal {
+
+/**
+ * @brief 解析 Content-Length 的值
+ * @throw std::runtime_error 不是合法的长度
+ */
+inline std::size_t parseContentLength(std::string_view sv) {
+    if (sv.empty() || sv.size() > 18
+        || sv.find_first_not_of("0123456789") != std::string_view::npos
+    ) [[unlikely]] {
+        throw std::runtime_error{"Bad Content-Length"};
+    }
+    return utils::NumericBaseConverter::strToNum<std::size_t, 10>(sv);
+}
+
+/**
+ * @brief 解析分块编码的分块长度行 (不含 CRLF)
+ * @throw std::runtime_error 不是合法的长度
+ */
+inline std::size_t parseChunkSize(std::string_view sv) {
+    sv = sv.substr(0, sv.find_first_of("; \t")); // 去掉分块扩展
+    if (sv.empty() || sv.size() > 15
+        || sv.find_first_not_of("0123456789abcdefABCDEF") != std::string_view::npos
+    ) [[unlikely]] {
+        throw std::runtime_error{"Bad chunk size"};
+    }
+    return utils::NumericBaseConverter::strToNum<std::size_t, 16>(sv);
+}
+
+} // namespace internal
+
 inline constexpr std::string_view CRLF{"\r\n", 2};
 
 inline constexpr std::string_view HEADER_SEPARATOR_SV   = ": ";
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8fd3968..5f48419 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -750,56 +750,52 @@ private:
         if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 计算剩余待解析字节数
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseContentLength(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
+                auto data = buf.substr(0, *_remainingBodyLen); // 可能多读到下一个报文的内容
+                _body.append(data);
+                *_remainingBodyLen -= data.size();
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 return *_remainingBodyLen;
             }
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
+            for (;;) {
+                if (_remainingBodyLen) { // 正在读取一个分块 (数据 + "\r\n")
+                    auto data = buf.substr(0, *_remainingBodyLen);
+                    _body.append(data);
+                    *_remainingBodyLen -= data.size();
+                    buf = buf.substr(data.size());
+                    if (*_remainingBodyLen || buf.size() < 2) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    if (!buf.starts_with(CRLF)) [[unlikely]] {
+                        throw std::runtime_error{"Bad chunk data"};
+                    }
+                    buf = buf.substr(2); // 跳过分块数据尾部的 "\r\n"
                     _remainingBodyLen.reset();
                 }
-            }
-            for (;;) {
                 std::size_t posLen = buf.find(CRLF);
                 if (posLen == std::string_view::npos) { // 没有读完
                     _recvBuf.moveToHead(buf);
                     return IO::kBufMaxSize;
                 }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
+                std::size_t len = internal::parseChunkSize(buf.substr(0, posLen));
+                if (!len) { // 最后一个分块, 之后还有拖挂 (可能为空) 和一个空行
+                    std::size_t endPos = buf.find("\r\n\r\n"sv, posLen);
+                    if (endPos == std::string_view::npos) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    _recvBuf.moveToHead(buf.substr(endPos + 4));
                     return 0;
                 }
+                _remainingBodyLen = len;
                 buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
             }
         }
         return 0;
@@ -816,57 +812,53 @@ private:
         if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 计算剩余待解析字节数
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseContentLength(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                co_await file.write(buf); // _body.append(buf);
-                _recvBuf.clear();
+                auto data = buf.substr(0, *_remainingBodyLen); // 可能多读到下一个报文的内容
+                co_await file.write(data);
+                *_remainingBodyLen -= data.size();
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 co_return *_remainingBodyLen;
             }
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                } else { // 读取完了
-                    co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
+            for (;;) {
+                if (_remainingBodyLen) { // 正在读取一个分块 (数据 + "\r\n")
+                    auto data = buf.substr(0, *_remainingBodyLen);
+                    co_await file.write(data);
+                    *_remainingBodyLen -= data.size();
+                    buf = buf.substr(data.size());
+                    if (*_remainingBodyLen || buf.size() < 2) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        co_return IO::kBufMaxSize;
+                    }
+                    if (!buf.starts_with(CRLF)) [[unlikely]] {
+                        throw std::runtime_error{"Bad chunk data"};
+                    }
+                    buf = buf.substr(2); // 跳过分块数据尾部的 "\r\n"
                     _remainingBodyLen.reset();
                 }
-            }
-            for (;;) {
                 std::size_t posLen = buf.find(CRLF);
                 if (posLen == std::string_view::npos) { // 没有读完
                     _recvBuf.moveToHead(buf);
                     co_return IO::kBufMaxSize;
                 }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
+                std::size_t len = internal::parseChunkSize(buf.substr(0, posLen));
+                if (!len) { // 最后一个分块, 之后还有拖挂 (可能为空) 和一个空行
+                    std::size_t endPos = buf.find("\r\n\r\n"sv, posLen);
+                    if (endPos == std::string_view::npos) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        co_return IO::kBufMaxSize;
+                    }
+                    _recvBuf.moveToHead(buf.substr(endPos + 4));
                     co_return 0;
                 }
+                _remainingBodyLen = len;
                 buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                }
-                co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
             }
         }
         co_return 0;
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d92285..415fad5 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -944,53 +944,49 @@ private:
         if (_responseHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 是 空行之后 (\r\n\r\n) 的内容大小(char)
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseContentLength(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
+                auto data = buf.substr(0, *_remainingBodyLen); // 可能多读到下一个报文的内容
+                _body.append(data);
+                *_remainingBodyLen -= data.size();
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 return *_remainingBodyLen;
             }
         } else if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf, 0, *_remainingBodyLen);
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
+            for (;;) {
+                if (_remainingBodyLen) { // 正在读取一个分块 (数据 + "\r\n")
+                    auto data = buf.substr(0, *_remainingBodyLen);
+                    _body.append(data);
+                    *_remainingBodyLen -= data.size();
+                    buf = buf.substr(data.size());
+                    if (*_remainingBodyLen || buf.size() < 2) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    if (!buf.starts_with(CRLF)) [[unlikely]] {
+                        throw std::runtime_error{"Bad chunk data"};
+                    }
+                    buf = buf.substr(2); // 跳过分块数据尾部的 "\r\n"
                     _remainingBodyLen.reset();
                 }
-            }
-            for (;;) {
                 std::size_t posLen = buf.find(CRLF);
                 if (posLen == std::string_view::npos) { // 没有读完
                     _recvBuf.moveToHead(buf);
                     return IO::kBufMaxSize;
                 }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
+                std::size_t len = internal::parseChunkSize(buf.substr(0, posLen));
+                if (!len) { // 最后一个分块, 之后还有拖挂 (可能为空) 和一个空行
+                    std::size_t endPos = buf.find("\r\n\r\n"sv, posLen);
+                    if (endPos == std::string_view::npos) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    _recvBuf.moveToHead(buf.substr(endPos + 4));
                     return 0;
                 }
+                _remainingBodyLen = len;
                 buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
             }
         } 
         // else if (_responseHeaders.contains("content-range")) {
-- 
2.43.0


From 0a11f633954834268b1c2594d1af31cea187f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 11/12] fix: malformed http heads are refused, and a header
 needs no blank after its colon

---
 include/HXLibs/net/protocol/http/Request.hpp  | 10 +++++++---
 include/HXLibs/net/protocol/http/Response.hpp | 15 +++++++++++----
 include/HXLibs/utils/StringUtils.hpp          | 13 +++++++++++++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 5f48419..932f087 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -686,7 +686,7 @@ private:
                 );
 
                 if (_requestLine.size() < 3) [[unlikely]] {
-                    return IO::kBufMaxSize;
+                    throw std::runtime_error{"Bad request line"};
                 } 
                 // else if (_requestLine.size() > 3) [[unlikely]] {
                 // @todo 理论上不会出现
@@ -709,9 +709,12 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) [[unlikely]] {     // 找不到 ": "
+                    auto p = utils::StringUtil::splitAtFirst(subKVStr, ":"sv);
+                    if (p.first.empty()) [[unlikely]] {     // 找不到 ":"
                         if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输请求头的
+                            if (_requestHeadersIt == _requestHeaders.end()) [[unlikely]] {
+                                throw std::runtime_error{"Bad header line"};
+                            }
                             _requestHeadersIt->second.append(subKVStr);
                         } else { // 请求头解析完毕!
                             _completeRequestHeader = true;
@@ -719,6 +722,7 @@ private:
                     } else {
                         // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
                         utils::StringUtil::toLower(p.first);
+                        p.second = std::string{utils::StringUtil::trim(p.second)}; // 值两侧的空白不属于值
                         _requestHeadersIt = _requestHeaders.insert(p).first;
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 415fad5..1c60a5b 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -875,8 +875,11 @@ private:
                     _statusLine = utils::StringUtil::split<std::string>(
                         buf.substr(0, pos), " "sv
                     );
-                    if (_statusLine.size() < 3) [[unlikely]] {
-                        return IO::kBufMaxSize;
+                    if (_statusLine.size() < 2) [[unlikely]] {
+                        throw std::runtime_error{"Bad status line"};
+                    }
+                    if (_statusLine.size() == 2) { // 状态信息可以为空
+                        _statusLine.emplace_back();
                     }
                     if (_statusLine.size() > 3) {
                         auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
@@ -904,9 +907,12 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) {                  // 找不到 ": "
+                    auto p = utils::StringUtil::splitAtFirst(subKVStr, ":"sv);
+                    if (p.first.empty()) {                  // 找不到 ":"
                         if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输响应头的
+                            if (_responseHeadersIt == _responseHeaders.end()) [[unlikely]] {
+                                throw std::runtime_error{"Bad header line"};
+                            }
                             _responseHeadersIt->second.append(subKVStr);
                         } else { // 请求头解析完毕!
                             _completeResponseHeader = true;
@@ -914,6 +920,7 @@ private:
                     } else {
                         // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
                         utils::StringUtil::toLower(p.first);
+                        p.second = std::string{utils::StringUtil::trim(p.second)}; // 值两侧的空白不属于值
                         _responseHeadersIt = _responseHeaders.insert(p).first;
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index f624951..1fd057b 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -178,6 +178,19 @@ struct StringUtil final {
         }
     }
 
+    /**
+     * @brief 去掉两侧的空格和制表符
+     * @param str
+     * @return std::string_view
+     */
+    static std::string_view trim(std::string_view str) noexcept {
+        std::size_t begin = str.find_first_not_of(" \t");
+        if (begin == std::string_view::npos) {
+            return {};
+        }
+        return str.substr(begin, str.find_last_not_of(" \t") - begin + 1);
+    }
+
     /**
      * @brief 从右到左查找字符并截取后面的子字符串
      * @param str 目标字符串
-- 
2.43.0


From 9f480309b44ece8f7274ac42bf24efb4eb33adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 12/12] fix: bytes of a pipelined request are kept for it

---
 include/HXLibs/net/protocol/http/Request.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 932f087..528046a 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -305,7 +305,8 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserReqHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserReqHead()) {
+        // 缓冲区可能已经有下一个请求的内容 (管线化), 故先解析
+        for (std::size_t n = _recvBuf.size() ? _parserReqHead() : IO::kBufMaxSize; n; n = _parserReqHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -550,7 +551,7 @@ public:
         _requestLine.clear();
         _requestHeaders.clear();
         _requestHeadersIt = _requestHeaders.end();
-        _recvBuf.clear();
+        // _recvBuf 不清空: 剩下的是下一个请求的内容
         _body.clear();
         _completeRequestHeader = false;
         _remainingBodyLen.reset();
-- 
2.43.0

