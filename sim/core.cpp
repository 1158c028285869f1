#include "core.hpp"
#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace sim {

extern const char* const subdir_mark = "\x01subdirectory";
extern const char* const link_mark = "\x01link:";

Str pct(const Str& s)
{
  if (s.empty()) return "%";
  Str r;
  char b[8];
  for (unsigned char c : s)
  {
    if (c <= 32 || c >= 127 || c == '%') { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}

Str unpct(const Str& s)
{
  if (s == "%") return "";
  Str r;
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (s[i] == '%' && i + 2 < s.size()) { r += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
    else r += s[i];
  }
  return r;
}

Str show(const Str& s)
{
  Str r = "\"";
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '\n') r += "\\n";
    else if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

Str tos(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); return b; }
long toi(const Str& s) { return strtol(s.c_str(), nullptr, 10); }
uint64_t tou(const Str& s) { return strtoull(s.c_str(), nullptr, 10); }

Str to_text(const Scenario& s)
{
  Str r = "profile " + s.profile + "\n";
  for (auto& o : s.opt) r += "opt " + o.first + " " + pct(o.second) + "\n";
  for (auto& op : s.ops)
  {
    r += "op " + op.name;
    for (auto& a : op.a) r += " " + pct(a);
    r += "\n";
    for (auto& f : op.faults)
    {
      r += "fault " + f.kind;
      for (auto& a : f.a) r += " " + pct(a);
      r += "\n";
    }
  }
  return r;
}

Scenario from_text(const Str& text)
{
  Scenario s;
  std::istringstream in(text);
  Str line;
  while (std::getline(in, line))
  {
    std::istringstream ls(line);
    Str kw, tok;
    if (!(ls >> kw) || kw[0] == '#') continue;
    Strs t;
    while (ls >> tok) t.push_back(unpct(tok));
    if (kw == "profile" && !t.empty()) s.profile = t[0];
    else if (kw == "opt" && t.size() >= 2) s.opt[t[0]] = t[1];
    else if (kw == "op" && !t.empty()) { Op o; o.name = t[0]; o.a.assign(t.begin() + 1, t.end()); s.ops.push_back(o); }
    else if (kw == "fault" && !t.empty() && !s.ops.empty()) { Fault f; f.kind = t[0]; f.a.assign(t.begin() + 1, t.end()); s.ops.back().faults.push_back(f); }
  }
  return s;
}

} // namespace sim
