import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
RQ='net/protocol/http/Request.hpp'; RS='net/protocol/http/Response.hpp'; AB='container/ArrayBuf.hpp'
H='''#include <map>
#include <memory>
#include <cstring>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
using namespace HX; using namespace HX::net;
alignas(16) static char dummy[4096];
template <class M> struct Rd {
    std::unique_ptr<M> p = std::make_unique<M>(*reinterpret_cast<HttpIO*>(dummy)); M& m = *p;
    void feed(std::string_view s) { std::memcpy(m._recvBuf.data() + m._recvBuf.size(), s.data(), s.size()); m._recvBuf.addSize(s.size()); }
};
using Q = Rd<HttpRequest<HttpIO>>; using S = Rd<HttpResponse<HttpIO>>;
'''
mk('c07_line_cut','C07',RQ,'''                    std::size_t pos = buf.find(CRLF);
                    if (pos == std::string_view::npos) { // 没有读取完
''','''                    std::size_t pos = buf.find(CRLF);
                    if (pos + 2 > buf.size() + 2) { // 没有读取完
''','a read that ends inside a header line','an incomplete header line is taken for a whole one',H+'''
int main() { Q a; a.feed("GET / HTTP/1.1\\r\\nHo"); try { if (!a.m._parserReqHead()) return 1; a.feed("st: x\\r\\n\\r\\n"); if (a.m._parserReqHead()) return 1; return a.m._requestHeaders.find("host") != a.m._requestHeaders.end() && a.m._requestHeaders.find("host")->second == "x" ? 0 : 1; } catch (...) { return 1; } }
''')
mk('c07_last_dup','C07',RQ,'_requestHeadersIt = _requestHeaders.insert(p).first;','_requestHeadersIt = _requestHeaders.insert_or_assign(p.first, p.second).first;','a request that repeats a header name','a repeated Host or Content-Length header overrides the first one',H+'''
int main() { Q a; a.feed("POST / HTTP/1.1\\r\\nContent-Length: 3\\r\\ncontent-length: 1\\r\\n\\r\\nabc"); if (a.m._parserReqHead()) return 1; if (a.m._parserReqBody()) return 1; return a.m._body == "abc" ? 0 : 1; }
''')
mk('c08_reason_words','C08',RS,'''                        _statusLine.emplace_back();
                    }
                    if (_statusLine.size() > 3) {
                        auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
                        for (std::size_t i = 3; i < _statusLine.size(); ++i) {''','''                        _statusLine.emplace_back();
                    }
                    if (_statusLine.size() > 3) {
                        auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
                        for (std::size_t i = 3; i + 1 < _statusLine.size() || i == 3; ++i) {''','a reason phrase of four words or more','the last word of a long reason phrase is lost',H+'''
int main() { S a; a.feed("HTTP/1.1 203 Non Authoritative\\r\\n\\r\\n"); if (a.m._parserResHead() || a.m._statusLine[2] != "Non Authoritative") return 2; S b; b.feed("HTTP/1.1 511 Network Authentication is Required\\r\\n\\r\\n"); if (b.m._parserResHead()) return 1; return b.m._statusLine[2] == "Network Authentication is Required" ? 0 : 1; }
''')
mk('c08_chunk_line_kept','C08',RS,'''                if (posLen == std::string_view::npos) { // 没有读完
                    _recvBuf.moveToHead(buf);''','''                if (posLen == std::string_view::npos) { // 没有读完
                    _recvBuf.moveToHead(buf.substr(buf.starts_with("0") ? 1 : 0));''','a read that ends inside a chunk size line that has leading zeros','bytes of a cut chunk size line are lost',H+'''
int main() { S a; a.feed("HTTP/1.1 200 OK\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n0"); try { if (a.m._parserResHead()) return 1; if (!a.m._parserReqBody()) return 1; a.feed("3\\r\\nabc\\r\\n0\\r\\n\\r\\n"); if (a.m._parserReqBody()) return 1; if (a.m._body != "abc") return 1; S b; b.feed("HTTP/1.1 200 OK\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n0"); b.m._parserResHead(); if (!b.m._parserReqBody()) return 1; b.feed("\\r\\n\\r\\n"); return b.m._parserReqBody() ? 1 : 0; } catch (...) { return 1; } }
''')
mk('c07_buf_move','C07',AB,'std::memmove(_arr, s.data(), s.size());','for (std::size_t i = s.size(); i-- > 0; ) _arr[i] = s[i];','kept bytes that overlap their new place: more unread bytes than consumed ones','the unread part of the receive buffer is moved down from its last byte to its first',H+'''
int main() { HX::container::ArrayBuf<char, 64> b; std::string s(48, 'x'); for (int i = 0; i < 48; ++i) s[i] = char('A' + i % 26); std::memcpy(b.data(), s.data(), 48); b.addSize(48); b.moveToHead(std::span<char const>(b.data() + 3, 45)); return std::string(b.data(), b.size()) == s.substr(3) ? 0 : 1; }
''')
