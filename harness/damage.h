// Structure-aware damage to text files.
#pragma once
#include "pbt.h"
namespace damage {
inline std::vector<std::string> lines(const std::string& t) {
  std::vector<std::string> v; std::string c;
  for (char ch : t) { c += ch; if (ch == '\n') { v.push_back(c); c.clear(); } }
  if (c.size()) v.push_back(c);
  return v;
}
inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; }
inline std::string once(pbt::Gen& g, const std::string& t, std::string& what) {
  if (t.empty()) { what += " empty"; return t; }
  std::vector<std::string> l = lines(t);
  size_t i = g.draw(l.size() - 1);
  auto body = [&](std::string& s) { size_t n = s.size(); while (n && (s[n - 1] == '\n' || s[n - 1] == '\r')) n--; return n; };
  switch (g.weighted({4, 3, 3, 3, 3, 4, 4, 3, 2, 2, 2})) {
    case 0: { what += " truncated"; return t.substr(0, g.draw(t.size() - 1)); }
    case 1: { what += " line removed"; l.erase(l.begin() + i); return join(l); }
    case 2: { what += " line doubled"; l.insert(l.begin() + i, l[i]); return join(l); }
    case 3: { what += " lines exchanged"; std::swap(l[i], l[g.draw(l.size() - 1)]); return join(l); }
    case 4: { what += " line cut"; size_t n = body(l[i]); size_t k = n ? g.draw(n - 1) : 0; l[i] = l[i].substr(0, k) + l[i].substr(n); return join(l); }
    case 5: {   // a number replaced
      std::vector<std::pair<size_t, size_t>> num;
      for (size_t a = 0; a < l[i].size();) { if (isdigit(l[i][a])) { size_t b = a; while (b < l[i].size() && isdigit(l[i][b])) b++; num.push_back({a, b - a}); a = b; } else a++; }
      if (num.empty()) { what += " nothing"; return t; }
      auto p = g.pick(num);
      static const std::vector<std::string> v = {"0", "-1", "1", "2", "3", "7", "19", "100", "999", "99999", "-5", "1e400", "x", "", "1e-400", "nan", "65536", "70000"};
      what += " number replaced";
      l[i] = l[i].substr(0, p.first) + g.pick(v) + l[i].substr(p.first + p.second);
      return join(l); }
    case 6: {   // a field of a comma separated line
      std::vector<size_t> c; for (size_t a = 0; a < l[i].size(); a++) if (l[i][a] == ',') c.push_back(a);
      if (c.empty()) { what += " nothing"; return t; }
      size_t p = g.pick(c);
      what += " field changed";
      switch (g.integer(0, 2)) {
        case 0: l[i].erase(p, 1); break;
        case 1: { size_t q = l[i].find(',', p + 1); l[i].erase(p, q == std::string::npos ? body(l[i]) - p : q - p); break; }
        default: { size_t n = body(l[i]); l[i] = l[i].substr(0, p) + l[i].substr(n); }
      }
      return join(l); }
    case 7: { what += " byte changed"; std::string s = t; s[g.draw(s.size() - 1)] = (char) (g.boolean() ? g.integer(32, 126) : g.integer(0, 255)); return s; }
    case 8: { what += " byte inserted"; std::string s = t; s.insert(g.draw(s.size()), 1, (char) (g.boolean() ? g.integer(32, 126) : g.integer(0, 255))); return s; }
    case 9: { what += " empty line"; l.insert(l.begin() + i, g.boolean() ? "\n" : "    \n"); return join(l); }
    default: { what += " part removed"; size_t a = g.draw(t.size() - 1); size_t b = std::min(t.size(), a + 1 + (size_t) g.integer(0, 200)); return t.substr(0, a) + t.substr(b); }
  }
}
inline std::string some(pbt::Gen& g, std::string t, std::string& what) {
  int k = 1 + (int) g.weighted({5, 3, 2, 1});
  for (int i = 0; i < k; i++) t = once(g, t, what);
  return t;
}
}  // namespace damage
