#pragma once
// line protocol for replays: "op hex hex ..." -> "ok hex" | "throw hex(what)"
#include <cstdio>
#include <string>
#include <vector>
#include <functional>
#include <exception>
#include <iostream>
namespace hxv {
inline std::string unhex(std::string const& s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16); return r; }
inline std::string hex(std::string const& s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
inline int serve(std::function<std::string(std::string const&, std::vector<std::string>&)> f) {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> w; std::string cur;
        for (char c : line) { if (c == ' ') { w.push_back(cur); cur.clear(); } else cur += c; }
        w.push_back(cur);
        std::vector<std::string> a; for (size_t i = 1; i < w.size(); ++i) a.push_back(w[i] == "-" ? std::string{} : unhex(w[i]));
        std::string out;
        try { out = "ok " + hex(f(w[0], a)); }
        catch (std::exception const& e) { out = "throw " + hex(e.what()); }
        catch (...) { out = "throw -"; }
        std::printf("%s\n", out.c_str()); std::fflush(stdout);
    }
    return 0;
}
} // namespace hxv
