// Instantiation unit for the WebSocket contracts. FakeIO is the byte transport the library is written against:
// io_send / io_recv are the contract boundary (specified in contracts/ws.py, implemented natively below for the replay).
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
using namespace HX; using namespace HX::net;
extern "C" { void io_send(char const* p, size_t n, size_t at); bool io_recv(char* p, size_t n, size_t at); int io_recv_some(char* p, size_t n, size_t at); bool io_timeout(); }
struct FakeIO {
    size_t pos = 0, out = 0;
    coroutine::Task<> fullySend(std::span<char const> b) { io_send(b.data(), b.size(), out); out += b.size(); co_return; }
    coroutine::Task<> fullyRecv(std::span<char> b) { if (!io_recv(b.data(), b.size(), pos)) throw std::runtime_error{"io"}; pos += b.size(); co_return; }
    using Res = coroutine::WhenAnyReturnType<coroutine::AioTask, decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))>;
    template <typename Timeout>
    coroutine::Task<Res> recvLinkTimeout(std::span<char> b) {
        Res r;
        if (io_timeout()) { r.template emplace<1>(); co_return r; }
        int n = io_recv_some(b.data(), b.size(), pos);
        if (n > 0) pos += (size_t)n;
        r.template emplace<0>(n);
        co_return r;
    }
};
using S = WebSocketServer<FakeIO>; using C = WebSocketClient<FakeIO>;
using TO = S::DefaultRDTimeout;
using PK = std::optional<WebSocketPacket>;
extern "C" {
void w_send_s(S* w, uint8_t op, WebSocketPacket* p) { (void)op; w->sendPacket(std::move(*p), 0).runSync(); }
void w_send_c(C* w, uint32_t mask, WebSocketPacket* p) { w->sendPacket(std::move(*p), mask).runSync(); }
void w_send_ss(S* w, uint8_t op, std::string s) { w->send((OpCode)op, std::move(s)).runSync(); }
void w_send_cc(C* w, uint8_t op, std::string s) { w->send((OpCode)op, std::move(s)).runSync(); }
void w_view(S* w, uint8_t op, char const* p, size_t n) { w->sendPacketView(makePacketView((OpCode)op, {p, n})).runSync(); }
PK w_recv_s(S* w) { return w->recvPacket<TO>().runSync(); }
// recv() is verified against the contracts of recvPacket (ws_recv_*) and send (ws_send_*): these stand for the calls
void io_packet(WebSocketPacket* out, bool* some); void io_sent(uint8_t op, char const* p, size_t n);
std::vector<char>* w_ahead_s(S* w) { return &w->_recvBuf; }
PK w_recv_c(C* w) { return w->recvPacket<TO>().runSync(); }
void w_full_s(S* w, char* p, size_t n) { w->fullyRecv({p, n}).runSync(); }
int w_some_s(S* w, char* p, size_t n) { auto r = w->recvLinkTimeout<TO>({p, n}).runSync(); return r.index() == 1 ? -1 : r.template get<0, exception::ExceptionMode::Nothrow>(); }
WebSocketPacket w_get_s(S* w, uint8_t a, uint8_t b) { return w->recv<false, TO>((OpCode)a, (OpCode)b).runSync(); }
WebSocketPacket w_get_c(C* w, uint8_t a, uint8_t b) { return w->recv<false, TO>((OpCode)a, (OpCode)b).runSync(); }
void w_close_s(S* w) { w->close().runSync(); }
void w_frag_s(S* w, uint8_t op, std::string s) { w->_fragment = WebSocketPacket{(OpCode)op, std::move(s)}; }
void w_frag_c(C* w, uint8_t op, std::string s) { w->_fragment = WebSocketPacket{(OpCode)op, std::move(s)}; }
WebSocketPacket* w_getfrag_s(S* w) { return w->_fragment ? &*w->_fragment : nullptr; }
WebSocketPacket* w_getfrag_c(C* w) { return w->_fragment ? &*w->_fragment : nullptr; }
WebSocketPacket* w_getpk(PK* p) { return *p ? &**p : nullptr; }
S* w_new_s(void* at, FakeIO* io, std::vector<char> b) { return new (at) S(*io, std::move(b)); }
C* w_new_c(void* at, FakeIO* io, std::vector<char> b, size_t seed) { return new (at) C(*io, std::move(b), seed); }
}
template <typename W> coroutine::Task<PK> recvPacket_contract(W*) { WebSocketPacket k; bool some = false; io_packet(&k, &some); if (some) co_return PK{std::move(k)}; co_return PK{}; }
template <typename W> coroutine::Task<> send_contract(W const*, OpCode op, std::string s) { io_sent((uint8_t)op, s.data(), s.size()); co_return; }
template coroutine::Task<PK> recvPacket_contract<S>(S*); template coroutine::Task<> send_contract<S>(S const*, OpCode, std::string);
template coroutine::Task<PK> recvPacket_contract<C>(C*); template coroutine::Task<> send_contract<C>(C const*, OpCode, std::string);
#ifdef HXV_NATIVE
#include "native.hpp"
// the native transport: a byte stream, a script of what each header read does (0 all, 1 one byte, 2 timeout) and what was sent
static std::string g_in, g_cfg, g_out; static size_t g_i;
extern "C" {
void io_send(char const* p, size_t n, size_t) { g_out.append(p, n); }
bool io_recv(char* p, size_t n, size_t at) { if (at > g_in.size() || g_in.size() - at < n) return false; std::memcpy(p, g_in.data() + at, n); return true; }
int io_recv_some(char* p, size_t n, size_t at) {
    size_t k = std::min(n, at > g_in.size() ? 0 : g_in.size() - at); if (g_i - 1 < g_cfg.size() && g_cfg[g_i - 1] == 1) k = std::min<size_t>(k, 1);
    std::memcpy(p, g_in.data() + std::min(at, g_in.size()), k); return (int)k; }
bool io_timeout() { auto i = g_i++; return i < g_cfg.size() && g_cfg[i] == 2; }
void io_packet(WebSocketPacket*, bool*) {} void io_sent(uint8_t, char const*, size_t) {}
}
static std::string num(size_t v) { return std::string((char*)&v, 8); }
static std::string pk(WebSocketPacket const& p) { return std::string(1, (char)p.opCode) + num(p.content.size()) + p.content; }
template <typename W> static std::string drain(W& w, FakeIO& io) {
    std::string r; int tmo = 0;
    for (;;) {
        PK p;
        size_t i0 = g_i;
        try { p = w.template recvPacket<TO>().runSync(); } catch (std::exception const&) { return r + "T"; }
        if (!p) { if (g_i > i0 && g_i - 1 < g_cfg.size() && g_cfg[g_i - 1] == 2 && ++tmo < 1000) { r += "o"; continue; } return r + "N"; }
        r += "P" + pk(*p) + num(io.pos + w._recvBuf.size() * 0);
    }
}
int main() {
    return hxv::serve([](std::string const& op, std::vector<std::string>& a) -> std::string {
        FakeIO io; g_in.clear(); g_cfg.clear(); g_out.clear(); g_i = 0;
        if (op == "wssend") {
            if (a[0][0]) { S w{io, {}}; w.send((OpCode)a[1][0], a[2]).runSync(); } else { C w{io, {}, 12345}; w.send((OpCode)a[1][0], a[2]).runSync(); w.send((OpCode)a[1][0], a[2]).runSync(); }
            return g_out; }
        if (op == "wsview") { S w{io, {}}; auto v = makePacketView((OpCode)a[0][0], a[1]); w.sendPacketView(v).runSync(); return g_out; }
        bool srv = a[0][0]; size_t ahead = (unsigned char)a[1][0]; g_cfg = a[2];
        std::vector<char> rb; size_t n = std::min(ahead, a[3].size()); rb.assign(a[3].rend() - n, a[3].rend()); g_in = a[3].substr(n);
        if (op == "wsrecv") { if (srv) { S w{io, std::move(rb)}; return drain(w, io); } C w{io, std::move(rb), 1}; return drain(w, io); }
        if (op == "wsget") {
            std::string r;
            auto go = [&](auto& w) { try { r = "P" + pk(w.template recv<false, TO>((OpCode)a[4][0], (OpCode)a[4][1]).runSync()); } catch (std::exception const& e) { r = "T"; } };
            if (srv) { S w{io, std::move(rb)}; go(w); } else { C w{io, std::move(rb), 1}; go(w); }
            return r + g_out; }
        throw std::logic_error("unknown op");
    });
}
#endif
