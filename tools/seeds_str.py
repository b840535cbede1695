import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
SU='utils/StringUtils.hpp'; UR='net/protocol/url/UrlParse.hpp'; HT='net/protocol/http/Http.hpp'; NB='utils/NumericBaseConverter.hpp'
H='''#include <HXLibs/utils/StringUtils.hpp>
#include <HXLibs/utils/NumericBaseConverter.hpp>
#include <HXLibs/net/protocol/url/UrlParse.hpp>
#include <HXLibs/net/protocol/http/Http.hpp>
#include <cstdio>
using namespace HX; using namespace HX::net; using namespace HX::utils;
'''
mk('c06_hash_range','C06',HT,"return (c >= 'A' && c <= 'Z') ? static_cast<unsigned char>(c + 32) : c;","return (c >= 'A' && c < 'Z') ? static_cast<unsigned char>(c + 32) : c;",'a header name with the letter Z','names that differ in the case of Z are different headers',H+'''
int main() { for (int c = 'A'; c <= 'Z'; ++c) { HeaderHashMap m; m.emplace(std::string("X-") + (char)c, "v"); if (m.find(std::string("x-") + (char)(c + 32)) == m.end()) return 1; if (m.find(std::string("x-") + (char)c) == m.end()) return 1; } return 0; }
''')
mk('c09_origin_query','C09',UR,'        std::size_t pathFind = url.find("/", protocolFind + 3);\n','        std::size_t pathFind = url.find("/", std::max<std::size_t>(protocolFind + 3, 7));\n','a ws URL with an authority of at most one byte','the origin of the URL contains a part of the path',H+'''
int main() { if (UrlParse::extractWsOrigin("ws://a/b") != "http://a") return 2; return UrlParse::extractWsOrigin("ws:///a/b") == "http://" ? 0 : 1; }
''')
mk('c09_path_skip','C09',UR,'            protocolFind == std::string_view::npos ? 0 : protocolFind + 3);\n        return pathFind','            protocolFind == std::string_view::npos ? 0 : protocolFind + 4);\n        return pathFind','a URL whose authority is empty (file:///x)','the first slash after the scheme separator is skipped',H+'''
int main() { if (UrlParse::extractPath("http://a/b/c") != "/b/c") return 2; return UrlParse::extractPath("file:///x/y") == "/x/y" ? 0 : 1; }
''')
mk('c10_hex_zero','C10',NB,'        do {\n            res += str[num % 16];\n            num /= 16;\n        } while (num);','        while (num) {\n            res += str[num % 16];\n            num /= 16;\n        }','the number zero','zero is converted to an empty text',H+'''
int main() { if (NumericBaseConverter::hexadecimalConversion(255) != "FF") return 2; return NumericBaseConverter::hexadecimalConversion(0) == "0" ? 0 : 1; }
''')
mk('c10_last_piece','C10',SU,'''            auto tk = str.substr(start);
            if (tk.size()) {
                res.emplace_back(start, std::move(tk));
            }''','''            auto tk = str.substr(start);
            if (tk.size() > delim.size()) {
                res.emplace_back(start, std::move(tk));
            }''','a text whose last piece is one byte long, split with positions','the last piece is lost when it is not longer than the delimiter',H+'''
int main() { auto v = StringUtil::splitWithPos<std::string_view>("ab;cd;ef", ";"); if (v.size() != 3) return 2; auto w = StringUtil::splitWithPos<std::string_view>("ab;c", ";"); return w.size() == 2 && w[1].first == 3 ? 0 : 1; }
''')
