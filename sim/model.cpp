#include "model.hpp"
#include <cctype>
#include <cerrno>
#include <iconv.h>

extern "C" {
iconv_t __real_iconv_open(const char*, const char*);
size_t __real_iconv(iconv_t, char**, size_t*, char**, size_t*);
int __real_iconv_close(iconv_t);
}

namespace model {

Str show(const Key& k)
{
  return (k.has_ctxt ? sim::show(k.ctxt) + "|" : Str()) + sim::show(k.id);
}

// ------------------------------------------------------------------ plural
const PluralRule plural_rules[] = {
  { "nplurals=1; plural=0;", 1, "0" },
  { "nplurals=2; plural=(n != 1);", 2, "n!=1" },
  { "nplurals=2; plural=n != 1;", 2, "n!=1" },
  { "nplurals=2; plural=(n > 1);", 2, "n>1" },
  { "nplurals=2; plural=n==1 || n%10==1 ? 0 : 1;", 2, "n==1||n%10==1?0:1" },
  { "nplurals=2; plural=(n % 10 == 1 && n % 100 != 11) ? 0 : 1;", 2, "(n%10==1&&n%100!=11)?0:1" },
  { "nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;", 3, "n==1?0:n==2?1:2" },
  { "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2);", 3,
    "(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2)" },
  { "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);", 3,
    "(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2)" },
  { "nplurals=3; plural=(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2;", 3, "(n==1)?0:(n>=2&&n<=4)?1:2" },
  { "nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);", 3,
    "(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2)" },
  { "nplurals=3; plural=(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3);", 3,
    "(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3)" },
  { "nplurals=3; plural=(n==1 ? 0:(((n%100>19) || ((n%100==0) && (n!=0))) ? 2:1));", 3,
    "(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1))" },
  { "nplurals=4; plural=(n%1==0 && n==1 ? 0 : n%1==0 && n>=2 && n<=4 ? 1 : n%1!=0 ? 2 : 3);", 4,
    "(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3)" },
  { "nplurals=4; plural=(n == 1 && n % 1 == 0) ? 0 : (n >= 2 && n <= 4 && n % 1 == 0) ? 1: (n % 1 != 0) ? 2 : 3;", 4,
    "(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3" },
  { "nplurals=4; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : n%10==0 || (n%10>=5 && n%10<=9) || (n%100>=11 && n%100<=14) ? 2 : 3);", 4,
    "(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14)?2:3)" },
  { "nplurals=4; plural=(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3;", 4,
    "(n==1||n==11)?0:(n==2||n==12)?1:(n>2&&n<20)?2:3" },
  { "nplurals=4; plural=(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3;", 4,
    "(n==1)?0:(n==2)?1:(n!=8&&n!=11)?2:3" },
  { "nplurals=4; plural=(n%10==1 && (n%100>19 || n%100<11) ? 0 : (n%10>=2 && n%10<=9) && (n%100>19 || n%100<11) ? 1 : n%1!=0 ? 2 : 3);", 4,
    "(n%10==1&&(n%100>19||n%100<11)?0:(n%10>=2&&n%10<=9)&&(n%100>19||n%100<11)?1:n%1!=0?2:3)" },
  { "nplurals=4; plural=(n%1==0 && n%10==1 && n%100!=11 ? 0 : n%1==0 && n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : n%1==0 && (n%10==0 || (n%10>=5 && n%10<=9) || (n%100>=11 && n%100<=14)) ? 2 : 3);", 4,
    "(n%1==0&&n%10==1&&n%100!=11?0:n%1==0&&n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%1==0&&(n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14))?2:3)" },
  { "nplurals=4; plural=(n==1 ? 0 : (n%10>=2 && n%10<=4) && (n%100<12 || n%100>14) ? 1 : n!=1 && (n%10>=0 && n%10<=1) || (n%10>=5 && n%10<=9) || (n%100>=12 && n%100<=14) ? 2 : 3);", 4,
    "(n==1?0:(n%10>=2&&n%10<=4)&&(n%100<12||n%100>14)?1:n!=1&&(n%10>=0&&n%10<=1)||(n%10>=5&&n%10<=9)||(n%100>=12&&n%100<=14)?2:3)" },
  { "nplurals=4; plural=(n==1 && n%1==0) ? 0 : (n==2 && n%1==0) ? 1: (n%10==0 && n%1==0 && n>10) ? 2 : 3;", 4,
    "(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3" },
  { "nplurals=5; plural=(n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4)", 5,
    "(n==1?0:n==2?1:n<7?2:n<11?3:4)" },
  { "nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5", 6,
    "n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5" },
};
const int n_plural_rules = sizeof(plural_rules) / sizeof(plural_rules[0]);

static Str squeeze(const Str& s)
{
  Str r;
  for (char c : s) if (!isspace(static_cast<unsigned char>(c))) r += c;
  return r;
}

int find_rule(const Str& header_line)
{
  Str want = squeeze(header_line);
  for (int i = 0; i < n_plural_rules; ++i)
    if (squeeze(Str("Plural-Forms:") + plural_rules[i].header) == want)
    {
      // "(n != 1)" and "n != 1" are one and the same rule
      return i == 2 ? 1 : i;
    }
  return -1;
}

namespace {
// C expression evaluator over n
struct Eval
{
  const char* p;
  long n;
  bool eat(const char* t)
  {
    size_t l = strlen(t);
    if (strncmp(p, t, l) == 0) { p += l; return true; }
    return false;
  }
  long prim()
  {
    if (eat("(")) { long v = cond(); eat(")"); return v; }
    if (eat("n")) return n;
    long v = 0;
    while (isdigit(static_cast<unsigned char>(*p))) v = v * 10 + (*p++ - '0');
    return v;
  }
  long mod() { long v = prim(); while (*p == '%') { ++p; long r = prim(); v %= r; } return v; }
  long rel()
  {
    long v = mod();
    for (;;)
    {
      if (eat(">=")) v = v >= mod();
      else if (eat("<=")) v = v <= mod();
      else if (eat(">")) v = v > mod();
      else if (eat("<")) v = v < mod();
      else return v;
    }
  }
  long eq()
  {
    long v = rel();
    for (;;)
    {
      if (eat("==")) v = v == rel();
      else if (eat("!=")) v = v != rel();
      else return v;
    }
  }
  long land() { long v = eq(); while (eat("&&")) { long r = eq(); v = v && r; } return v; }
  long lor() { long v = land(); while (eat("||")) { long r = land(); v = v || r; } return v; }
  long cond()
  {
    long c = lor();
    if (!eat("?")) return c;
    long a = cond();
    eat(":");
    long b = cond();
    return c ? a : b;
  }
};
} // namespace

unsigned eval_rule(int rule, int n)
{
  if (rule < 0) return 0;
  Eval e{plural_rules[rule].expr, n};
  return static_cast<unsigned>(e.cond());
}

// ----------------------------------------------------------------- charset
Str upper(const Str& s)
{
  Str r = s;
  for (auto& c : r) c = static_cast<char>(toupper(static_cast<unsigned char>(c)));
  return r;
}

static iconv_t open_cd(const Str& from, const Str& to)
{
  return __real_iconv_open(upper(to).c_str(), upper(from).c_str());
}

// Opening is slow, so descriptors are kept, but only those whose conversion has no state (glibc does not always get rid
// of it when a conversion is reset).
static std::map<Str, iconv_t> kept;
static bool stateless(const Str& cs)
{
  static const std::set<Str> names = { "UTF-8", "KOI8-R", "KOI8-U", "EUC-JP", "SHIFT_JIS", "BIG5", "GB18030", "CP1250", "CP1251", "CP1252", "EUC-KR" };
  Str u = upper(cs);
  return names.count(u) || (u.compare(0, 9, "ISO-8859-") == 0 && u.size() < 12);
}
static iconv_t borrow_cd(const Str& name, const Str& from, const Str& to)
{
  auto i = kept.find(name);
  if (i == kept.end()) return open_cd(from, to);
  iconv_t cd = i->second;
  kept.erase(i);
  return cd;
}

bool deny_conversions = false;

bool convertible(const Str& from, const Str& to)
{
  if (upper(from) == upper(to)) return true;
  if (deny_conversions) return false;
  static std::map<Str, bool> known;
  auto k = known.insert(std::make_pair(upper(from) + "\n" + upper(to), false));
  if (!k.second) return k.first->second;
  iconv_t cd = open_cd(from, to);
  if (cd == reinterpret_cast<iconv_t>(-1)) return false;
  __real_iconv_close(cd);
  return k.first->second = true;
}

Conv convert(const Str& from, const Str& to, const Str& text)
{
  Conv r;
  r.valid = true;
  if (upper(from) == upper(to) || text.empty()) { r.out = r.out_flushed = text; return r; }
  const Str name = upper(from) + "\n" + upper(to);
  iconv_t cd = borrow_cd(name, from, to);
  if (cd == reinterpret_cast<iconv_t>(-1)) { r.out = r.out_flushed = text; return r; }
  Str out(text.size() * 16 + 64, '\0');
  Str in = text;
  char* ip = &in[0];
  size_t il = in.size();
  char* op = &out[0];
  size_t ol = out.size();
  size_t rc = __real_iconv(cd, &ip, &il, &op, &ol);
  r.out = out.substr(0, out.size() - ol);
  if (rc == static_cast<size_t>(-1)) r.valid = false;
  __real_iconv(cd, nullptr, nullptr, &op, &ol);
  r.out_flushed = out.substr(0, out.size() - ol);
  if (r.valid) r.out = r.out_flushed;
  if (!r.valid || !stateless(from) || !stateless(to) || !kept.insert(std::make_pair(name, cd)).second) __real_iconv_close(cd);
  return r;
}

// -------------------------------------------------------------- dictionary
void Dict::add_single(const Key& k, const Str& v)
{
  Strs& f = own[k];
  if (f.empty()) f.push_back(v); else f[0] = v;
}

void Dict::add_plural(const Key& k, const Strs& v)
{
  own[k] = v;
}

bool Dict::has(const Key& k) const
{
  auto i = own.find(k);
  return i != own.end() && !i->second.empty();
}

Strs Dict::lookup(const Key& k) const
{
  if (has(k))
  {
    Strs r(1, own.at(k)[0]);
    if (r[0].empty()) r.push_back(k.id); // a plural entry without its first form
    return r;
  }
  if (fallback) return fallback->lookup(k);
  return Strs(1, k.id);
}

Strs Dict::lookup_plural(const Key& k, const Str& id_plural, int n) const
{
  Str source = n == 1 ? k.id : id_plural;
  if (has(k))
  {
    const Strs& f = own.at(k);
    unsigned i = eval_rule(rule, n);
    if (i < f.size() && !f[i].empty()) return Strs(1, f[i]);
    return Strs(1, source);
  }
  if (fallback) return fallback->lookup_plural(k, id_plural, n);
  return Strs(1, source);
}

// --------------------------------------------------------------- catalogue
namespace {

struct Malformed {};
struct ReadError {};
struct BadCharset {};

bool space(char c) { return isspace(static_cast<unsigned char>(c)) != 0; }

class Loader
{
  Strs lines;
  size_t at = 0;
  bool error_at_end;
  bool fuzzy_ok;
  Dict& d;
  ParseResult& res;
  Str from;         // charset of the file, "" until a header was seen
  bool two_bytes = false, shift_jis = false; // characters of two bytes, the second of which may look like a backslash

  bool more() const { return at < lines.size(); }
  Str line() const { return more() ? lines[at] : Str(); }

  void next()
  {
    ++at;
    need();
  }
  void need()
  {
    if (at >= lines.size() && error_at_end) throw ReadError();
  }

  static bool blank(const Str& l)
  {
    if (!l.empty() && l[0] == '#') return l.size() == 1 || space(l[1]);
    for (char c : l) if (!space(c)) return false;
    return true;
  }
  bool blank() const { return blank(line()); }
  bool starts(const char* p) const { return line().compare(0, strlen(p), p) == 0; }

  [[noreturn]] void malformed()
  {
    ++res.errors;
    while (more() && !blank()) next();
    throw Malformed();
  }

  // a quoted string that begins at column q
  void quoted(Str& out, size_t q)
  {
    const Str l = line();
    if (q + 1 >= l.size() || l[q] != '"') malformed();
    size_t i = q + 1;
    for (;;)
    {
      if (i >= l.size()) malformed();
      unsigned char c = static_cast<unsigned char>(l[i]);
      if (c == '"') break;
      if (two_bytes && c >= 0x81 && c <= 0xfe && !(shift_jis && c >= 0xa1 && c <= 0xdf))
      {
        if (i + 1 >= l.size()) malformed();
        out += l[i]; out += l[i + 1];
        i += 2;
      }
      else if (c == '\\')
      {
        if (i + 1 >= l.size()) malformed();
        static const char from_[] = "abvntr\"\\", to_[] = "\a\b\v\n\t\r\"\\";
        const char* e = l[i + 1] ? strchr(from_, l[i + 1]) : nullptr;
        if (e) out += to_[e - from_];
        else { ++res.warnings; out += '\\'; out += l[i + 1]; }
        i += 2;
      }
      else { out += l[i]; ++i; }
    }
    for (++i; i < l.size(); ++i) if (!space(l[i])) { ++res.warnings; break; }
  }

  // the string after a keyword of the given length, with its continuation lines
  Str string_after(size_t col)
  {
    Str out;
    const Str l = line();
    if (col + 1 >= l.size()) malformed();
    if (l[col] != ' ' || l[col + 1] != '"') ++res.warnings;
    while (col < l.size() && space(l[col])) ++col;
    if (col >= l.size() || l[col] != '"') malformed();
    quoted(out, col);
    for (;;)
    {
      next();
      const Str c = line();
      size_t i = 0;
      while (i < c.size() && space(c[i])) ++i;
      if (i >= c.size() || c[i] != '"') return out;
      quoted(out, i);
    }
  }

  Str conv(const Str& s)
  {
    if (from.empty()) return s;
    return convert(from, d.charset, s).out;
  }

  void header(const Str& h)
  {
    Str cs;
    int rule = -1;
    size_t start = 0;
    for (size_t i = 0; i <= h.size(); ++i)
    {
      if (i < h.size() && h[i] != '\n') continue; // the last field needs no newline
      Str l = h.substr(start, i - start);
      start = i + 1;
      const Str ct = "Content-Type: text/plain; charset=";
      if (l.compare(0, ct.size(), ct) == 0) cs = upper(l.substr(ct.size()));
      else if (l.compare(0, 13, "Plural-Forms:") == 0)
      {
        int r = find_rule(l);
        if (r >= 0 && rule < 0) rule = r;
      }
    }
    if (cs.empty() || cs == "CHARSET") cs = "UTF-8";
    else
    {
      static const std::set<Str> weird = { "BIG5", "BIG5-HKSCS", "CP950", "GBK", "CP936", "GB18030", "JOHAB", "SHIFT_JIS", "SJIS", "CP932" };
      if (weird.count(cs)) two_bytes = true;
      if (cs == "SHIFT_JIS" || cs == "SJIS" || cs == "CP932") shift_jis = true;
    }
    if (!convertible(cs, d.charset)) throw BadCharset(); // a catalogue that can't be used has no say in the rule
    from = cs;
    if (d.rule < 0) d.rule = rule;
  }

  void entry()
  {
    bool fuzzy = false;
    while (!line().empty() && line()[0] == '#')
    {
      const Str l = line();
      if (l.size() >= 2 && l[1] == ',' && l.find("fuzzy", 2) != Str::npos) fuzzy = true;
      next();
    }
    if (!blank())
    {
      Key k;
      if (starts("msgctxt")) { k.has_ctxt = true; k.ctxt = string_after(7); }
      if (!starts("msgid")) malformed();
      k.id = string_after(5);
      if (starts("msgid_plural"))
      {
        string_after(12);
        Strs forms;
        bool any = false;
        for (;;)
        {
          if (blank()) { if (forms.empty()) malformed(); break; }
          const Str l = line();
          if (!(starts("msgstr[") && l.size() > 8 && isdigit(static_cast<unsigned char>(l[7])) && l[8] == ']')) malformed();
          size_t n = static_cast<size_t>(l[7] - '0');
          Str s = string_after(9);
          if (!s.empty()) any = true;
          if (forms.size() <= n) forms.resize(n + 1);
          forms[n] = conv(s);
        }
        if (any && (fuzzy_ok || !fuzzy)) { d.add_plural(k, forms); res.versions.push_back({k, d.own[k]}); }
      }
      else if (starts("msgstr"))
      {
        Str s = string_after(6);
        if (k.id.empty() && !k.has_ctxt) header(s);
        else if (!s.empty() && (fuzzy_ok || !fuzzy)) { d.add_single(k, conv(s)); res.versions.push_back({k, d.own[k]}); }
      }
      else malformed();
    }
    if (!blank()) malformed();
    next();
  }

public:
  Loader(const Str& bytes, bool err, bool fz, Dict& d_, ParseResult& r) : error_at_end(err), fuzzy_ok(fz), d(d_), res(r)
  {
    size_t start = 0;
    for (size_t i = 0; i < bytes.size(); ++i)
      if (bytes[i] == '\n') { lines.push_back(bytes.substr(start, i - start)); start = i + 1; }
    if (start < bytes.size() && !err) lines.push_back(bytes.substr(start)); // a partly read line is not a line
    if (!lines.empty() && lines[0].compare(0, 3, "\xef\xbb\xbf") == 0) lines[0].erase(0, 3);
  }
  void run()
  {
    try
    {
      need();
      while (more())
      {
        try { entry(); } catch (Malformed&) {}
      }
    }
    catch (ReadError&) { res.read_error = true; }
    catch (BadCharset&) { res.bad_charset = true; }
  }
};

} // namespace

ParseResult load(const Str& bytes, bool error_at_end, bool use_fuzzy, Dict& d)
{
  ParseResult r;
  Loader(bytes, error_at_end, use_fuzzy, d, r).run();
  return r;
}

// --------------------------------------------------------------- languages
namespace {
struct Row { const char* lang; const char* country; const char* modifier; };
struct Alias { const char* name; const char* env; };
#include "langs.inc"
} // namespace

Str Lang::str() const
{
  return lang + (country.empty() ? Str() : "_" + country) + (modifier.empty() ? Str() : "@" + modifier);
}

const std::vector<Lang>& all_langs()
{
  static const std::vector<Lang> v = []
  {
    std::vector<Lang> r;
    for (auto& x : lang_rows) { Lang l; l.lang = x.lang; l.country = x.country; l.modifier = x.modifier; r.push_back(l); }
    return r;
  }();
  return v;
}

const std::vector<std::pair<Str, Str> >& all_names()
{
  static const std::vector<std::pair<Str, Str> > v = []
  {
    std::vector<std::pair<Str, Str> > r;
    for (auto& x : alias_rows) r.push_back(std::make_pair(Str(x.name), Str(x.env)));
    return r;
  }();
  return v;
}

// language[_country][.codeset][@modifier]
static Lang split(const Str& s)
{
  Lang l;
  size_t u = s.find('_'), dot = s.find('.'), a = s.find('@');
  l.lang = s.substr(0, std::min(std::min(u, dot), a));
  size_t e = std::min(dot, a);
  if (u != Str::npos && u < e) l.country = s.substr(u + 1, e == Str::npos ? e : e - u - 1);
  if (a != Str::npos) l.modifier = s.substr(a + 1);
  return l;
}

Lang lang_of(const Str& spec)
{
  static const std::map<Str, Lang> m = []
  {
    std::map<Str, Lang> r;
    for (auto& l : all_langs()) r.insert(std::make_pair(l.str(), l));
    return r;
  }();
  auto i = m.find(spec);
  return i == m.end() ? Lang() : i->second;
}

// the existing language nearest to the one asked for
Lang nearest(const Lang& want)
{
  Lang best;
  int best_score = 0;
  for (auto& l : all_langs())
  {
    int s = l.lang == want.lang ? score(l, want) : 0;
    if (s > best_score) { best = l; best_score = s; }
  }
  return best;
}

Lang lang_of_env(const Str& env) { return nearest(split(env)); }

bool is_catalogue(const Str& f)
{
  return f.size() >= 3 && f.compare(f.size() - 3, 3, ".po") == 0;
}

Lang lang_of_file(const Str& filename)
{
  if (!is_catalogue(filename)) return Lang();
  Lang l = split(filename.substr(0, filename.size() - 3));
  for (auto& c : l.country) { if (!isalpha(static_cast<unsigned char>(c))) break; c = static_cast<char>(toupper(c)); } // names in lower case
  return nearest(l);
}

int score(const Lang& a, const Lang& b)
{
  if (a.lang != b.lang) return 0;
  auto rank = [](const Str& x, const Str& y) { return x == y ? 0 : (x.empty() || y.empty()) ? 1 : 2; };
  int c = rank(a.country, b.country), m = rank(a.modifier, b.modifier);
  // country first, then modifier; exact, unspecified, different
  static const int order[9][2] = { {0,0}, {0,1}, {1,0}, {1,1}, {0,2}, {2,0}, {1,2}, {2,1}, {2,2} };
  for (int i = 0; i < 9; ++i) if (order[i][0] == c && order[i][1] == m) return 9 - i;
  return 0;
}

} // namespace model
