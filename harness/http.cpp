// Instantiation unit for HTTP request and response parsing.
#include <map>
#include <memory>
#include <cstring>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils;
using Rq = HttpRequest<HttpIO>; using Rs = HttpResponse<HttpIO>;
using IoRes = coroutine::WhenAnyReturnType<coroutine::AioTask, decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))>;
using TO5 = decltype(5_s);
#ifdef HXV_NATIVE
int native_recv(char* p, std::size_t n);
template <> coroutine::Task<IoRes> HttpIO::recvLinkTimeout<TO5>(std::span<char> b) { IoRes r; int n = native_recv(b.data(), b.size()); if (n == -1000) r.template emplace<1>(); else r.template emplace<0>(n); co_return r; }
#endif
extern "C" {
std::size_t q_body(Rq* r) { return r->_parserReqBody(); }
std::size_t q_head(Rq* r) { return r->_parserReqHead(); }
std::size_t s_body(Rs* r) { return r->_parserReqBody(); }
std::size_t s_head(Rs* r) { return r->_parserResHead(); }
char* q_arr(Rq* r) { return r->_recvBuf._arr; }
std::size_t* q_n(Rq* r) { return &r->_recvBuf._nowSize; }
std::optional<std::size_t>* q_rem(Rq* r) { return &r->_remainingBodyLen; }
std::string* q_bodystr(Rq* r) { return &r->_body; }
std::vector<std::string>* q_line(Rq* r) { return &r->_requestLine; }
HeaderHashMap* q_map(Rq* r) { return &r->_requestHeaders; }
HeaderHashMap::iterator* q_it(Rq* r) { return &r->_requestHeadersIt; }
bool* q_done(Rq* r) { return &r->_completeRequestHeader; }
char* s_arr(Rs* r) { return r->_recvBuf._arr; }
std::size_t* s_n(Rs* r) { return &r->_recvBuf._nowSize; }
std::optional<std::size_t>* s_rem(Rs* r) { return &r->_remainingBodyLen; }
std::string* s_bodystr(Rs* r) { return &r->_body; }
std::vector<std::string>* s_line(Rs* r) { return &r->_statusLine; }
HeaderHashMap* s_map(Rs* r) { return &r->_responseHeaders; }
HeaderHashMap::iterator* s_it(Rs* r) { return &r->_responseHeadersIt; }
bool* s_done(Rs* r) { return &r->_completeResponseHeader; }
std::size_t h_cl(std::string_view s) { return HX::net::internal::parseContentLength(s); }
std::size_t h_cs(std::string_view s) { return HX::net::internal::parseChunkSize(s); }
std::string_view h_trim(std::string_view s) { return StringUtil::trim(s); }
using AB = decltype(Rq::_recvBuf); static_assert(std::is_same_v<AB, decltype(Rs::_recvBuf)>);
char* ab_arr(AB* b) { return b->_arr; }
std::size_t* ab_n(AB* b) { return &b->_nowSize; }
void ab_move(AB* b, char const* p, std::size_t n) { b->moveToHead(std::span<char const>{p, n}); }
void ab_add(AB* b, std::size_t n) { b->addSize(n); }
void ab_reset(AB* b, std::size_t n) { b->resetSize(n); }
void ab_clear(AB* b) { b->clear(); }
std::string_view ab_read(AB* b) { return {b->data(), b->size() <= b->max_size() ? b->size() : 0}; }
// the reading loops are verified against the contracts of the parsers and of the transport: io_* stand for the calls
bool io_timeout(); int io_recv_some(HttpIO* io, char* p, std::size_t n);
void q_fresh(Rq* r) { r->_completeBody = false; } void s_fresh(Rs* r) { r->_completeBody = false; }
bool q_head_loop(Rq* r) { return r->parserReqHead<TO5>().runSync(); }
std::string q_body_loop(Rq* r) { return r->parseBody<TO5>().runSync(); }
bool s_head_loop(Rs* r) { return r->parserResHead<TO5>().runSync(); }
bool s_body_loop(Rs* r) { return r->parseBody<TO5>().runSync(); }
std::size_t h_szq() { return sizeof(Rq); }
std::size_t h_szs() { return sizeof(Rs); }
}
coroutine::Task<IoRes> http_recv_contract(HttpIO* io, std::span<char> b) {
    IoRes r; if (io_timeout()) { r.template emplace<1>(); co_return r; }
    r.template emplace<0>(io_recv_some(io, b.data(), b.size())); co_return r;
}
void* use_http_recv_contract = (void*)&http_recv_contract;
#ifdef HXV_NATIVE
#include "native.hpp"
extern "C" { bool io_timeout() { return true; } int io_recv_some(HttpIO*, char*, std::size_t) { return 0; } }
static void put(std::string& r, std::string_view s) { uint32_t n = s.size(); r.append((char*)&n, 4); r.append(s); }
static std::string num(uint64_t v) { return std::string((char*)&v, 8); }
alignas(16) static char dummy[4096];
template <class M> struct Acc;
template <> struct Acc<Rq> { static auto& line(Rq& m) { return m._requestLine; } static auto& hs(Rq& m) { return m._requestHeaders; } static auto& it(Rq& m) { return m._requestHeadersIt; } static bool& done(Rq& m) { return m._completeRequestHeader; } static size_t head(Rq& m) { return m._parserReqHead(); } };
template <> struct Acc<Rs> { static auto& line(Rs& m) { return m._statusLine; } static auto& hs(Rs& m) { return m._responseHeaders; } static auto& it(Rs& m) { return m._responseHeadersIt; } static bool& done(Rs& m) { return m._completeResponseHeader; } static size_t head(Rs& m) { return m._parserResHead(); } };
template <class M> static void fill(M& m, std::string_view s) { std::memcpy(m._recvBuf.data() + m._recvBuf.size(), s.data(), s.size()); m._recvBuf.addSize(s.size()); }
template <class M> static void heads(M& m, std::string& r) {
    std::string l; for (auto& t : Acc<M>::line(m)) put(l, t); put(r, l);
    std::map<std::string, std::string> o(Acc<M>::hs(m).begin(), Acc<M>::hs(m).end()); l.clear(); for (auto& [k, v] : o) { put(l, k); put(l, v); } put(r, l);
}
// the real reading loops, fed from `s` cut at the given places
static std::string_view g_cuts, g_s; static size_t g_at, g_c; static bool g_stop, g_over;
int native_recv(char* p, std::size_t n) {
    if (n > 16384) { g_over = true; return 0; }
    if (!n || g_at >= g_s.size()) { g_stop = true; return 0; }
    size_t end = g_s.size(); while (g_c + 2 <= g_cuts.size()) { size_t q = (unsigned char)g_cuts[g_c] | (unsigned char)g_cuts[g_c + 1] << 8; if (q > g_at) { end = std::min(end, q); break; } g_c += 2; }
    size_t k = std::min(n, end - g_at); std::memcpy(p, g_s.data() + g_at, k); g_at += k; return (int)k;
}
template <class M> static std::string message(std::string_view cuts, std::string_view s) {
    g_cuts = cuts; g_s = s; g_at = g_c = 0; g_stop = g_over = false;
    auto mp = std::make_unique<M>(*reinterpret_cast<HttpIO*>(dummy)); M& m = *mp; std::string r, b; char st = 'd';
    try {
        if constexpr (std::is_same_v<M, Rq>) { if (!q_head_loop(&m)) st = 'h'; } else { if (!s_head_loop(&m)) st = 'h'; }
        if (st == 'd') {
            if constexpr (std::is_same_v<M, Rq>) b = q_body_loop(&m); else { if (!s_body_loop(&m)) st = 'b'; b = m._body; }
        }
    } catch (std::exception const& e) { st = g_stop ? (b = m._body, 'b') : 't'; }
    if (g_over) st = 'o';
    r += st; heads(m, r); put(r, b); put(r, std::string(m._recvBuf.data(), m._recvBuf.size())); r += num(g_at); return r;
}
template <class M> static std::string bodystep(std::vector<std::string>& a) {
    auto mp = std::make_unique<M>(*reinterpret_cast<HttpIO*>(dummy)); M& m = *mp; std::string r;
    if (a[0][0]) { uint64_t v; std::memcpy(&v, a[1].data(), 8); m._remainingBodyLen = v; }
    if (a[2] == "L") Acc<M>::hs(m).emplace("content-length", a[3]);
    if (a[2] == "C") Acc<M>::hs(m).emplace("transfer-encoding", "chunked");
    fill(m, a[4]); size_t n = m._parserReqBody();
    r += num(n); r += (char)m._remainingBodyLen.has_value(); r += num(m._remainingBodyLen.value_or(0)); put(r, m._body); put(r, std::string(m._recvBuf.data(), m._recvBuf.size())); return r;
}
template <class M> static std::string headstep(std::vector<std::string>& a) {
    auto mp = std::make_unique<M>(*reinterpret_cast<HttpIO*>(dummy)); M& m = *mp; std::string r;
    if (a[0][0]) { Acc<M>::line(m) = {"A", "B", "C"}; Acc<M>::done(m) = a[0][0] == 2; }
    if (a[0][1]) Acc<M>::it(m) = Acc<M>::hs(m).emplace("old", "value").first;
    fill(m, a[1]); size_t n = Acc<M>::head(m);
    r += num(n); r += (char)Acc<M>::done(m); heads(m, r); put(r, std::string(m._recvBuf.data(), m._recvBuf.size())); return r;
}
int main() {
    return hxv::serve([](std::string const& op, std::vector<std::string>& a) -> std::string {
        std::vector<char> h0(a[0].begin(), a[0].end()); std::string_view s{h0.data(), h0.size()};
        if (op == "qmsg") return message<Rq>(a[0], a[1]);
        if (op == "smsg") return message<Rs>(a[0], a[1]);
        if (op == "qbody") return bodystep<Rq>(a);
        if (op == "sbody") return bodystep<Rs>(a);
        if (op == "qhead") return headstep<Rq>(a);
        if (op == "shead") return headstep<Rs>(a);
        if (op == "clen") return num(h_cl(s));
        if (op == "csize") return num(h_cs(s));
        if (op == "trim") return std::string(h_trim(s));
        if (op == "abuf") { auto b = std::make_unique<AB>(); std::memcpy(b->data(), s.data(), s.size()); b->addSize(s.size()); uint64_t lo, n; std::memcpy(&lo, a[1].data(), 8); std::memcpy(&n, a[2].data(), 8); ab_move(b.get(), b->data() + lo, n); return {b->data(), b->size()}; }
        throw std::logic_error("unknown op");
    });
}
#endif
