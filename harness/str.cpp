// Instantiation unit for string utilities, header-name comparison, number bases and URL parsing.
#include <HXLibs/utils/StringUtils.hpp>
#include <HXLibs/utils/NumericBaseConverter.hpp>
#include <HXLibs/net/protocol/http/Http.hpp>
#include <HXLibs/net/protocol/url/UrlParse.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils;
extern "C" {
void r_lower(std::string& s) { StringUtil::toLower(s); }
void r_upper(std::string& s) { StringUtil::toUpper(s); }
std::pair<std::string, std::string> r_first(std::string_view s, std::string_view d) { return StringUtil::splitAtFirst(s, d); }
std::string r_rtrim(std::string_view s, std::string_view d) { return StringUtil::rfindAndTrim(s, d); }
void r_append(std::vector<char>& b, std::span<char const> s) { StringUtil::append(b, s); }
std::vector<std::string> r_split(std::string_view s, std::string_view d) { return StringUtil::split<std::string>(s, d); }
std::vector<std::string_view> r_splitv(std::string_view s, std::string_view d) { return StringUtil::split<std::string_view>(s, d); }
std::vector<std::string> r_splite(std::string_view s, std::string_view d) { return StringUtil::split<std::string, false>(s, d); }
std::vector<std::pair<std::size_t, std::string_view>> r_splitp(std::string_view s, std::string_view d) { return StringUtil::splitWithPos<std::string_view>(s, d); }
std::vector<std::pair<std::size_t, std::string_view>> r_splitpe(std::string_view s, std::string_view d) { return StringUtil::splitWithPos<std::string_view, false>(s, d); }
std::string r_hex(std::size_t n) { return NumericBaseConverter::hexadecimalConversion(n); }
std::size_t r_num16(std::string_view s) { return NumericBaseConverter::strToNum<std::size_t, 16>(s); }
std::size_t r_num10(std::string_view s) { return NumericBaseConverter::strToNum<std::size_t, 10>(s); }
std::size_t r_num36(std::string_view s) { return NumericBaseConverter::strToNum<std::size_t, 36>(s); }
std::size_t r_cihash(std::string_view s) { return HX::net::internal::TransparentCaseInsensitiveHash{}(s); }
bool r_cieq(std::string_view a, std::string_view b) { return HX::net::internal::TransparentCaseInsensitiveEqual{}(a, b); }
std::string_view r_mth(HttpMethod m) { return getMethodStringView(m); }
std::string_view r_path(std::string_view u) { return UrlParse::extractPath(u); }
std::string r_origin(std::string_view u) { return UrlParse::extractWsOrigin(u); }
std::string_view r_proto(std::string_view u) { return UrlParse::extractProtocol(u); }
std::optional<AccountInfo> r_user(std::string_view u) { return UrlParse::extractUser(u); }
std::string r_rmproto(std::string& u) { return UrlParse::removeProtocol(u); }
std::string r_service(std::string_view u) { UrlInfoExtractor e{u}; return std::string(e.getService()); }
uint16_t r_port(std::string_view p) { return UrlParse::getProtocolPort(p); }
}
#ifdef HXV_NATIVE
#include <cstring>
#include "native.hpp"
// list results: each item as 4-byte little-endian length + bytes (positions as 8 bytes before)
static void put(std::string& r, std::string_view s) { uint32_t n = s.size(); r.append((char*)&n, 4); r.append(s); }
static std::string num(uint64_t v) { return std::string((char*)&v, 8); }
int main() {
    return hxv::serve([](std::string const& op, std::vector<std::string>& a) -> std::string {
        std::string r;
        // exact-size heap copies: reads outside them are seen by the sanitizer
        std::vector<char> h0(a[0].begin(), a[0].end()); std::string_view s{h0.data(), h0.size()};
        std::vector<char> h1; if (a.size() > 1) h1.assign(a[1].begin(), a[1].end()); std::string_view d{h1.data(), h1.size()};
        if (op == "lower") { r = a[0]; StringUtil::toLower(r); return r; }
        if (op == "upper") { r = a[0]; StringUtil::toUpper(r); return r; }
        if (op == "first") { auto p = StringUtil::splitAtFirst(s, d); put(r, p.first); put(r, p.second); return r; }
        if (op == "rtrim") return StringUtil::rfindAndTrim(s, d);
        if (op == "append") { std::vector<char> b(a[0].begin(), a[0].end()); StringUtil::append(b, d); return {b.data(), b.size()}; }
        if (op == "split") { for (auto& t : StringUtil::split<std::string>(s, d)) put(r, t); return r; }
        if (op == "splitv") { for (auto& t : StringUtil::split<std::string_view>(s, d)) put(r, t); return r; }
        if (op == "splite") { for (auto& t : StringUtil::split<std::string, false>(s, d)) put(r, t); return r; }
        if (op == "splitp") { for (auto& t : StringUtil::splitWithPos<std::string_view>(s, d)) { r += num(t.first); put(r, t.second); } return r; }
        if (op == "splitpe") { for (auto& t : StringUtil::splitWithPos<std::string_view, false>(s, d)) { r += num(t.first); put(r, t.second); } return r; }
        if (op == "hex") { uint64_t v; std::memcpy(&v, a[0].data(), 8); return r_hex(v); }
        if (op == "num16") return num(r_num16(s));
        if (op == "num10") return num(r_num10(s));
        if (op == "num36") return num(r_num36(s));
        if (op == "cihash") return num(r_cihash(s));
        if (op == "cihash2") return r_cihash(s) == r_cihash(d) ? "1" : "0";
        if (op == "cieq") return r_cieq(s, d) ? "1" : "0";
        if (op == "hdr") { HeaderHashMap m; m.emplace(a[0], "v"); auto it = m.find(std::string(d)); return it == m.end() ? "0" : "1"; }
        if (op == "mth") return std::string(r_mth((HttpMethod)a[0][0]));
        if (op == "path") return std::string(r_path(s));
        if (op == "origin") return r_origin(s);
        if (op == "proto") return std::string(r_proto(s));
        if (op == "user") { auto u = r_user(s); if (!u) return "none"; put(r, u->account); put(r, u->password); return r; }
        if (op == "rmproto") { std::string u = a[0]; std::string q = r_rmproto(u); put(r, q); put(r, u); return r; }
        if (op == "service") return r_service(s);
        if (op == "port") { std::string z(s); return num(r_port(z)); }
        throw std::logic_error("unknown op");
    });
}
#endif
