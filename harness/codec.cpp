// Instantiation unit for the codec contracts: the verified text is the bodies in /repo/include, this file only names them.
#include <HXLibs/net/protocol/codec/Base64.hpp>
#include <HXLibs/net/protocol/codec/Base64Url.hpp>
#include <HXLibs/net/protocol/codec/SHA1.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
#include <HXLibs/utils/ByteUtils.hpp>
using namespace HX; using namespace HX::net;
extern "C" {
std::string r_b64(std::span<uint8_t> s) { return base64Encode(s); }
std::string r_b64u(std::span<const uint8_t> s) { return base64UrlEncode(s); }
std::string r_b64uc(std::span<const char> s) { return base64UrlEncode(s); }
std::string r_b64d(std::string_view s) { return base64UrlDecode(s); }
std::string r_ws(std::string s) { return HX::net::internal::webSocketSecretHash(std::move(s)); }
void r_sha(SHA1Context* c, void const* p, size_t n, void* d) { c->update(p, n); c->finish(d); }
uint16_t r_bs16(uint16_t v) { return utils::ByteUtils::byteswapIfLittle(v); }
uint32_t r_bs32(uint32_t v) { return utils::ByteUtils::byteswapIfLittle(v); }
uint64_t r_bs64(uint64_t v) { return utils::ByteUtils::byteswapIfLittle(v); }
}
#ifdef HXV_NATIVE
#include "native.hpp"
int main() {
    return hxv::serve([](std::string const& op, std::vector<std::string>& a) -> std::string {
        if (op == "b64enc") { std::vector<uint8_t> v(a[0].begin(), a[0].end()); return base64Encode(v); }
        if (op == "b64uenc") { std::vector<uint8_t> v(a[0].begin(), a[0].end()); return base64UrlEncode(std::span<const uint8_t>(v.data(), v.size())); }
        if (op == "b64uencc") { std::vector<char> v(a[0].begin(), a[0].end()); return base64UrlEncode(std::span<const char>(v.data(), v.size())); }
        if (op == "b64rt") { std::vector<uint8_t> v(a[0].begin(), a[0].end()); return base64UrlDecode(base64UrlEncode(std::span<const uint8_t>(v.data(), v.size()))); }
        if (op == "b64udec") { std::vector<char> v(a[0].begin(), a[0].end()); return base64UrlDecode(std::string_view(v.data(), v.size())); }
        if (op == "wshash") return HX::net::internal::webSocketSecretHash(a[0]);
        if (op == "sha1") { // arg0: message, arg1: chunk sizes as bytes
            SHA1Context c; size_t p = 0;
            for (unsigned char n : a[1]) { size_t k = std::min<size_t>(n, a[0].size() - p); c.update(a[0].data() + p, k); p += k; }
            c.update(a[0].data() + p, a[0].size() - p);
            std::string d(20, 0); c.finish(d.data()); return d; }
        if (op == "bswap") { uint64_t v = 0; std::memcpy(&v, a[0].data(), a[0].size()); std::string r;
            if (a[0].size() == 2) { auto x = utils::ByteUtils::byteswapIfLittle((uint16_t)v); r.assign((char*)&x, 2); }
            else if (a[0].size() == 4) { auto x = utils::ByteUtils::byteswapIfLittle((uint32_t)v); r.assign((char*)&x, 4); }
            else { auto x = utils::ByteUtils::byteswapIfLittle(v); r.assign((char*)&x, 8); }
            return r; }
        throw std::logic_error("unknown op");
    });
}
#endif
