import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
F='net/protocol/websocket/WebSocket.hpp'
PRE='''#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
#include <cstdio>
using namespace HX; using namespace HX::net;
struct Io { std::string in, out; size_t pos = 0;
  coroutine::Task<> fullySend(std::span<char const> b) { out.append(b.data(), b.size()); co_return; }
  coroutine::Task<> fullyRecv(std::span<char> b) { if (in.size() - pos < b.size()) throw std::runtime_error{"eof"}; std::memcpy(b.data(), in.data() + pos, b.size()); pos += b.size(); co_return; }
  using Res = coroutine::WhenAnyReturnType<coroutine::AioTask, decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))>;
  template <typename T> coroutine::Task<Res> recvLinkTimeout(std::span<char> b) { Res r; size_t n = std::min(b.size(), in.size() - pos); std::memcpy(b.data(), in.data() + pos, n); pos += n; r.template emplace<0>((int)n); co_return r; }
};
using S = WebSocketServer<Io>; using C = WebSocketClient<Io>; using TO = S::DefaultRDTimeout;
static std::string frame(int op, std::string d, bool fin, bool mask) { std::string b; b += (char)((fin ? 128 : 0) | op); size_t n = d.size(); int m = mask ? 128 : 0;
  if (n < 126) b += (char)(m | n); else if (n < 65536) { b += (char)(m | 126); b += (char)(n >> 8); b += (char)n; } else { b += (char)(m | 127); for (int i = 7; i >= 0; --i) b += (char)(n >> (8 * i)); }
  if (mask) { const char k[] = {1, 2, 3, 4}; b.append(k, 4); for (size_t i = 0; i < n; ++i) d[i] ^= k[i % 4]; } return b + d; }
'''
mk('c03_view_65535','C03',F,'} else if (msg.size() <= 0xFFFF) {','} else if (msg.size() < 0xFFFF) {','a prepared view of exactly 65535 bytes','the frame uses the 64-bit length form for a length that fits 16 bits',PRE+'''
int main() { for (size_t n : {0, 125, 126, 65534, 65535, 65536}) { std::string m(n, 'x'); Io io; S w{io, {}}; w.sendPacketView(makePacketView(OpCode::Text, m)).runSync(); if (io.out != frame(1, m, true, false)) { std::printf("%zu\\n", n); return 1; } } return 0; }
''')
mk('c03_mask_trunc','C03',F,'            const std::size_t n = packet.content.size();\n            for (std::size_t i = 0; i < n; ++i) {\n                packet.content[i] ^= maskArr[i % 4];','            const auto n = static_cast<uint16_t>(packet.content.size());\n            for (std::size_t i = 0; i < n; ++i) {\n                packet.content[i] ^= maskArr[i % 4];','a client message of 65536 bytes or more','bytes of the payload beyond length mod 65536 are sent unmasked',PRE+'''
int main() { for (size_t n : {0, 5, 126, 65535, 65536, 70000}) { std::string m(n, 'x'); Io io; C w{io, {}, 7}; w.sendBytes(m).runSync(); auto& o = io.out; size_t h = n < 126 ? 2 : n < 65536 ? 4 : 10; if (o.size() != h + 4 + n) return 2; for (size_t i = 0; i < n; ++i) if ((char)(o[h + 4 + i] ^ o[h + i % 4]) != 'x') { std::printf("%zu %zu\\n", n, i); return 1; } } return 0; }
''')
mk('c04_len16_signed','C04',F,'payloadLen = static_cast<std::size_t>(payloadLen16);','payloadLen = static_cast<std::size_t>(static_cast<int16_t>(payloadLen16));','a received frame with a 16-bit length of 32768 or more','the length is sign extended and the message is lost',PRE+'''
int main() { for (size_t n : {0, 125, 126, 32767, 32768, 65535, 65536}) { std::string m(n, 'y'); Io io; io.in = frame(2, m, true, true); S w{io, {}}; try { auto p = w.recvPacket<TO>().runSync(); if (!p || p->content != m) return 1; } catch (std::exception& e) { std::puts(e.what()); return 1; } } return 0; }
''')
mk('c04_alt_any','C04',F,'} else if ((*res).opCode != recvType && (*res).opCode != alternative) [[unlikely]] {','} else if ((*res).opCode != recvType && alternative == OpCode::Unknown) [[unlikely]] {','a message whose type is neither the wanted nor the alternative one while an alternative is given','a message of an unwanted type is returned to the caller',PRE+'''
int main() { Io io; io.in = frame(10, "z", true, true) + frame(1, "a", true, true); S w{io, {}}; try { auto p = w.recv<false, TO>(OpCode::Text, OpCode::Binary).runSync(); if (p.opCode != OpCode::Text && p.opCode != OpCode::Binary) return 1; } catch (std::exception&) {} return 0; }
''')
mk('c04_ctl_126','C04',F,'if (payloadLen8 >= 126) [[unlikely]] {','if (payloadLen8 > 126) [[unlikely]] {','a control frame that uses the 16-bit length form','an oversized control frame is delivered instead of refused',PRE+'''
int main() { for (size_t n : {125, 126, 300}) { Io io; io.in = frame(9, std::string(n, 'p'), true, true); S w{io, {}}; bool got = false; try { auto p = w.recvPacket<TO>().runSync(); got = p.has_value(); } catch (std::exception&) {} if (got != (n < 126)) return 1; } return 0; }
''')
