// Scenario generation: one seed decides catalogues, disk, history of calls and faults.
#include "core.hpp"
#include "model.hpp"
#include <algorithm>

namespace sim {
namespace {

// charsets of catalogues that can be turned into Latin 1, and of any others
const char* const latin_sets[] = { "UTF-8", "utf-8", "ISO-8859-1", "ISO-8859-15", "CP1252", "iso-8859-1" };
const char* const wide_sets[] = {
  "UTF-8", "UTF-8", "UTF-8", "utf-8", "Utf-8", "KOI8-R", "koi8-u", "EUC-JP", "GB18030", "BIG5", "Big5", "BIG5", "big5", "ISO-8859-1", "ISO-8859-15", "ISO-8859-2",
  "ISO-8859-5", "ISO-8859-7", "ISO-8859-9", "CP1251", "CP1250", "EUC-KR", "GBK", "TIS-620", "SHIFT_JIS", "CP932", "KOI8-RU", "EUC-TW", "US-ASCII", "CP1255", "BIG5-HKSCS", "JOHAB", "CP936", "CP950", "SJIS", "shift_jis", "Shift_JIS", "gbk", "EUC-KR", "CP949"
};
template<class T, size_t N> constexpr size_t many(const T (&)[N]) { return N; }
const char* const singles[] = { "alpha", "beta", "gamma", "delta", "Exit", "Open file", "quit?" };
const char* const plurals[] = { "%d apple", "%d pear", "%d file" };
const char* const contexts[] = { "menu", "door" };
// ids that are easily confused with others or taken for something else
const char* const odd_ids[] = { "Alpha", "ALPHA", "alph", "alphaa", " alpha", "alpha ", "alpha\n", " ", "\t", "\n", "a", "msgid", "msgstr", "msgctxt", "#", "# x", "\\", "\"", "\\n", "%s: %d",
  "fuzzy", "Stra\xc3\x9f" "e", "\xe6\x97\xa5\xe6\x9c\xac", "caf\xc3\xa9", "\xf0\x9f\x98\x80", "first\nsecond\nthird\n", "menu", "door", "0", "\"quoted\"", "[0]", "~", "alpha beta" };
const char* const odd_contexts[] = { "", "Menu", "menu ", "menu\n", "alpha", "m\xc3\xa9nu", "a \"b\"", "door|menu", "\x04" };

Strs words(const char* s)
{
  Strs r;
  Str w;
  for (; *s; ++s) { if (*s == ' ') { if (!w.empty()) r.push_back(w); w.clear(); } else w += *s; }
  if (!w.empty()) r.push_back(w);
  return r;
}

struct Ent
{
  bool ctx = false, plural = false, fuzzy = false;
  Str ctxt, id;
  Strs forms; // texts, UTF-8
};

struct CatSpec
{
  Str tag;              // makes texts attributable
  Str charset = "UTF-8";
  Strs chars;           // non-ASCII characters it may use
  int rule = 1;         // index into the plural rules, -1: none, -2: unknown one
  bool header = true, rich = false, crlf = false, bom = false, final_newline = true;
  bool loose = false;   // comments may separate entries, unknown escapes
  int header_form = 0;  // 1: one line, 2: no newline at its end, 3: marked fuzzy, 4: twice
  Str header_charset;   // what the header says (default: charset)
};

struct Gen
{
  Rng r;
  Scenario s;
  int serial = 0;
  std::vector<Ent> known;   // every message put into a catalogue
  explicit Gen(uint64_t seed) : r(seed) {}

  Op& op(const Str& name, const Strs& a = Strs())
  {
    Op o;
    o.name = name;
    o.a = a;
    s.ops.push_back(o);
    return s.ops.back();
  }
  static void fault(Op& o, const Str& kind, const Strs& a)
  {
    Fault f;
    f.kind = kind;
    f.a = a;
    o.faults.push_back(f);
  }

  // -------------------------------------------------------------- catalogues
  // charsets whose two-byte characters may end in a backslash
  static bool weird_cjk(const Str& cs)
  {
    static const std::set<Str> names = { "BIG5", "BIG5-HKSCS", "CP950", "GBK", "CP936", "GB18030", "JOHAB", "SHIFT_JIS", "SJIS", "CP932" };
    return names.count(model::upper(cs)) != 0;
  }
  // encoded form of one character, "" if it can't be used there
  Str encode(const Str& c, const Str& cs)
  {
    if (model::upper(cs) == "UTF-8") return c;
    model::Conv v = model::convert("UTF-8", cs, c);
    if (!v.valid) return "";
    if (c.size() > 1 && !weird_cjk(cs))
      for (char b : v.out) if (b == '"' || b == '\\' || b == '\n') return "";
    return v.out;
  }

  static Str utf8(uint32_t c)
  {
    Str r;
    if (c < 0x80) r += static_cast<char>(c);
    else if (c < 0x800) { r += static_cast<char>(0xc0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += static_cast<char>(0xe0 | c >> 12); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    else { r += static_cast<char>(0xf0 | c >> 18); r += static_cast<char>(0x80 | (c >> 12 & 63)); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    return r;
  }

  // some character of that charset, as UTF-8, or ""
  Str random_char(const Str& charset)
  {
    Str cs = model::upper(charset);
    if (cs == "UTF-8")
    {
      static const uint32_t blocks_[][2] = { { 0xa0, 0x17f }, { 0x370, 0x3ff }, { 0x400, 0x4ff }, { 0x5d0, 0x5ea }, { 0x620, 0x64a }, { 0xe01, 0xe2f }, { 0x1e00, 0x1eff },
        { 0x2010, 0x2030 }, { 0x20a0, 0x20bf }, { 0x3041, 0x30fe }, { 0x4e00, 0x9fff }, { 0xac00, 0xd7a3 }, { 0xff01, 0xff5e }, { 0x1f300, 0x1f6ff }, { 0x20000, 0x2a6d0 }, { 0x80, 0x7ff },
        { 0x800, 0xd7ff }, { 0xe000, 0xffff }, { 0x10000, 0x10ffff } };
      size_t b = r.below(many(blocks_));
      return utf8(blocks_[b][0] + static_cast<uint32_t>(r.below(blocks_[b][1] - blocks_[b][0] + 1)));
    }
    if (cs == "US-ASCII") return "";
    for (int i = 0; i < 20; ++i)
    {
      Str e;
      bool two = cs.compare(0, 3, "EUC") == 0 || cs.compare(0, 2, "GB") == 0 || cs == "BIG5" || cs.compare(0, 9, "SHIFT_JIS") == 0 || cs == "CP949" || weird_cjk(cs);
      e += static_cast<char>(two ? r.range(0x81, 0xfe) : r.range(0x80, 0xff));
      if (two && e[0] >= static_cast<char>(0xa1) && e[0] <= static_cast<char>(0xdf) && (cs == "CP932" || cs == "SJIS" || cs == "SHIFT_JIS")) two = false; // katakana
      if (two)
      {
        static const unsigned char edge[] = { 0x5c, 0x40, 0x7e, 0x7c, 0x5b, 0xa1, 0xfe, 0x61 };
        bool low = weird_cjk(cs) && r.chance(1, 2);
        e += static_cast<char>(low ? (r.chance(1, 2) ? 0x5c : r.range(0x40, 0x7e)) : r.chance(1, 8) ? edge[r.below(8)] : r.range(0xa1, 0xfe));
        if (cs == "GB18030" && r.chance(1, 6)) { e.resize(1); e += static_cast<char>(r.range(0x30, 0x39)); e += static_cast<char>(r.range(0x81, 0xfe)); e += static_cast<char>(r.range(0x30, 0x39)); }
      }
      model::Conv v = model::convert(cs, "UTF-8", e);
      if (!v.valid || v.out.empty()) continue;
      model::Conv back = model::convert("UTF-8", cs, v.out);
      if (back.valid && back.out == e) return v.out;
    }
    return "";
  }

  // characters a catalogue uses; only those the target can express as well
  Strs random_chars(const Str& cs, const Str& target, int n)
  {
    Strs v;
    for (int i = 0; i < n; ++i)
    {
      Str c = random_char(cs);
      if (!c.empty() && (target.empty() || model::convert("UTF-8", target, c).valid)) v.push_back(c);
    }
    return v;
  }

  // a text as a list of units that may not be torn apart, already escaped and encoded
  Strs units(const Str& utf8, const Str& cs, bool rich)
  {
    Strs u;
    for (size_t i = 0; i < utf8.size();)
    {
      unsigned char c = static_cast<unsigned char>(utf8[i]);
      size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
      Str ch = utf8.substr(i, n);
      i += n;
      if (ch == "\n") u.push_back("\\n");
      else if (ch == "\t") u.push_back(rich && r.chance(1, 2) ? "\t" : "\\t");
      else if (ch == "\"") u.push_back("\\\"");
      else if (ch == "\\") u.push_back("\\\\");
      else if (ch == "\a") u.push_back("\\a");
      else if (ch == "\b") u.push_back("\\b");
      else if (ch == "\v") u.push_back("\\v");
      else if (ch == "\r") u.push_back("\\r");
      else if (ch == "\x01") { static const char* const unknown[] = { "\\q", "\\f", "\\0", "\\'", "\\x41", "\\ ", "\\N", "\\e" }; u.push_back(unknown[r.below(many(unknown))]); }
      else { Str e = encode(ch, cs); if (!e.empty()) u.push_back(e); }
    }
    return u;
  }

  Str blanks()
  {
    Str b;
    for (int i = r.chance(1, 4) ? r.range(20, 200) : r.range(1, 24); i > 0; --i) b += r.chance(1, 6) ? "\t\v\f "[r.below(4)] : ' ';
    return b;
  }

  // ids and contexts that resemble each other
  Str near(const Str& s)
  {
    Str v = s;
    switch (r.below(9))
    {
      case 0: v += Str("\0b", 2); break;
      case 1: v += Str("\0", 1); break;
      case 2: v += ' '; break;
      case 3: v = " " + v; break;
      case 4: for (auto& c : v) if (isalpha(static_cast<unsigned char>(c))) { c = static_cast<char>(c ^ 0x20); break; } break;
      case 5: if (v.size() > 1 && static_cast<unsigned char>(v[v.size() - 1]) < 0x80) v.resize(v.size() - 1); break;
      case 6: v += '\n'; break;
      case 7: v += "\x04" "b"; break;
      default: v += v; break;
    }
    return v;
  }

  // what may follow a string on its line without becoming part of it
  Str rest(bool rich)
  {
    static const char* const more[] = { " \"more\"", "\"\"", " \"", " more", ";", " # remark", " \\n", " \xc3\xa4", " msgstr \"other\"" };
    if (!rich) return "";
    if (r.chance(1, 20)) return r.chance(1, 2) ? Str(" ") : blanks();
    if (r.chance(1, 90)) return more[r.below(many(more))];
    return "";
  }

  Str quoted(const Str& keyword, const Strs& u, bool rich, const Str& nl)
  {
    Str k = keyword;
    Str sep = rich && r.chance(1, 12) ? (r.chance(1, 2) ? Str(r.chance(1, 2) ? "  " : "\t") : blanks()) : Str(" ");
    if (!rich || u.empty() || r.chance(1, 2))
    {
      Str t;
      for (auto& x : u) t += x;
      return k + sep + "\"" + t + "\"" + rest(rich) + nl;
    }
    Str out;
    size_t i = 0;
    if (r.chance(1, 2)) out = k + sep + "\"\"" + nl;
    else
    {
      size_t n = r.below(u.size() + 1);
      Str t;
      for (; i < n; ++i) t += u[i];
      out = k + sep + "\"" + t + "\"" + nl;
    }
    while (i < u.size())
    {
      size_t n = 1 + r.below(u.size() - i);
      Str t;
      for (size_t j = 0; j < n; ++j) t += u[i++];
      out += (r.chance(1, 8) ? (r.chance(1, 2) ? Str(r.chance(1, 2) ? " " : "\t ") : rich ? blanks() : Str("  ")) : Str()) + "\"" + t + "\"" + rest(rich) + nl;
    }
    return out;
  }

  Str header_block(const CatSpec& c, const Str& nl)
  {
    Str cs = c.header_charset.empty() ? c.charset : c.header_charset;
    Strs fields;
    if (r.chance(1, 2)) fields.push_back("Project-Id-Version: " + c.tag);
    Str ct = "Content-Type: text/plain; charset=" + cs;
    Str pf;
    if (c.rule >= 0)
    {
      pf = Str("Plural-Forms: ") + model::plural_rules[c.rule].header;
      if (c.rich && r.chance(1, 6)) { Str t; for (char x : pf) { if (x != ' ' || r.chance(1, 2)) t += x; if ((x == ';' || x == '=') && r.chance(1, 6)) t += ' '; } pf = respace(pf, t); }
    }
    else if (c.rule == -2) pf = "Plural-Forms: nplurals=7; plural=n%7;";
    if (r.chance(1, 3)) { if (!pf.empty()) fields.push_back(pf); fields.push_back(ct); }
    else { fields.push_back(ct); if (!pf.empty()) fields.push_back(pf); }
    if (c.rich)
    {
      static const char* const more[] = { "MIME-Version: 1.0", "Language: de", "X-Generator: \\\"tool\\\" 1.0", "Content-Transfer-Encoding: 8bit", "X-Poedit-Basepath: ..\\\\src",
        "Last-Translator: fuzzy <a@b.c>", "X-Old: Plural-Forms: nplurals=1; plural=0;", "" };
      for (int i = r.range(0, 3); i > 0; --i) fields.insert(fields.begin() + static_cast<long>(r.below(fields.size() + 1)), more[r.below(many(more))]);
    }
    Str h;
    if (c.rich && r.chance(1, 5)) h += "# comment" + nl;
    if (c.header_form == 3) h += "#, fuzzy" + nl;
    h += "msgid \"\"" + nl;
    if (c.header_form == 1)
    {
      h += "msgstr \"";
      for (auto& f : fields) h += f + "\\n";
      h += "\"" + nl;
    }
    else
    {
      h += "msgstr \"\"" + nl;
      for (size_t i = 0; i < fields.size(); ++i)
        h += "\"" + fields[i] + (c.header_form == 2 && i + 1 == fields.size() ? "" : "\\n") + "\"" + nl;
    }
    return h;
  }
  // the same header with other white space, never inside the field name
  static Str respace(const Str& from, const Str& to)
  {
    return to.compare(0, 13, "Plural-Forms:") == 0 ? to : from;
  }

  // what a '#' line may hold; fuzzy: the flag line that marks the entry is among them
  Str comments(const CatSpec& c, bool fuzzy, const Str& nl)
  {
    static const char* const plain[] = { "#. extracted comment", "#: src/main.cpp:42", "#| msgid \"previous\"", "#. fuzzy logic", "#: src/fuzzy.cpp:7", "#| msgid \"fuzzy, previous\"", "#", "# translator comment",
      "# fuzzy", "#, c-format", "#, no-c-format, range: 0..10", "#~| msgid \"older\"", "#:", "#.", "#|", "#," };
    static const char* const marks[] = { "#, fuzzy", "#, fuzzy", "#, c-format, fuzzy", "#,fuzzy", "#, fuzzy, c-format", "#, no-c-format, fuzzy", "#,  fuzzy" };
    Strs l;
    if (!c.rich) { if (fuzzy) l.push_back(r.chance(1, 3) ? "#, c-format, fuzzy" : "#, fuzzy"); }
    else
    {
      for (int i = r.chance(1, 2) ? 0 : r.range(1, 3); i > 0; --i) l.push_back(plain[r.below(many(plain))]);
      if (fuzzy) l.insert(l.begin() + static_cast<long>(r.below(l.size() + 1)), marks[r.below(many(marks))]);
    }
    Str b;
    for (auto& x : l) b += x + nl;
    return b;
  }

  Str entry_block(const CatSpec& c, const Ent& e, const Str& nl)
  {
    Str b = comments(c, e.fuzzy, nl);
    if (e.ctx) b += quoted("msgctxt", units(e.ctxt, "UTF-8", c.rich), c.rich, nl);
    b += quoted("msgid", units(e.id, "UTF-8", c.rich), c.rich && !e.id.empty(), nl);
    if (e.plural)
    {
      b += quoted("msgid_plural", units(c.rich && r.chance(1, 10) ? (r.chance(1, 2) ? e.id : Str()) : e.id + "s", "UTF-8", c.rich), c.rich, nl);
      std::vector<size_t> order;
      for (size_t i = 0; i < e.forms.size(); ++i) order.push_back(i);
      if (c.rich && r.chance(1, 8)) r.shuffle(order);
      if (c.rich && order.size() > 1 && r.chance(1, 12)) order.erase(order.begin() + static_cast<long>(r.below(order.size())));
      if (c.rich && r.chance(1, 15)) order.push_back(r.below(e.forms.size()));
      for (size_t i : order)
        b += quoted("msgstr[" + tos(static_cast<long>(i)) + "]", units(e.forms[i], c.charset, c.rich), c.rich, nl);
    }
    else b += quoted("msgstr", units(e.forms[0], c.charset, c.rich), c.rich, nl);
    return b;
  }

  Strs said; // texts used before
  Str text(const CatSpec& c, const Ent& e, int form)
  {
    Str t = c.tag + "." + tos(++serial) + " " + e.id.substr(0, 6);
    if (e.plural) t += " f" + tos(form);
    if (!c.chars.empty() && r.chance(2, 3))
      for (int i = r.range(1, 4); i > 0; --i) t += r.pick(c.chars);
    if (c.rich)
      for (int i = r.range(0, 3); i > 0; --i)
      {
        static const char* const extra[] = { "\n", "\t", "\"", "\\", "\a", "\b", "\v", "\r", "#", " ", "msgid", "%d", "\\n" };
        if (r.chance(1, 30)) t += Str("\0", 1);
        else t += extra[r.below(sizeof extra / sizeof *extra)];
      }
    if (c.loose && r.chance(1, 10)) t.insert(r.below(t.size()) , "\x01");
    if (!said.empty() && r.chance(1, c.rich ? 10 : 16)) return r.chance(1, 2) ? said.back() : r.pick(said); // the same words again
    if (r.chance(1, 40)) return e.plural && r.chance(1, 2) ? e.id + " (many)" : e.id; // the source text itself
    if (said.size() < 30) said.push_back(t);
    if (c.rich && r.chance(1, 30)) for (int i = r.range(200, 9000); i > 0; --i) t += static_cast<char>('a' + i % 26);
    return t;
  }

  Ent entry(const CatSpec& c, const Str& id, bool ctx, const Str& ctxt, int fuzzy_percent)
  {
    Ent e;
    e.id = id;
    e.ctx = ctx;
    e.ctxt = ctxt;
    e.plural = !id.empty() && id[0] == '%';
    if (c.rich && r.chance(1, 12)) e.plural = !e.plural;
    e.fuzzy = r.chance(fuzzy_percent, 100);
    if (e.plural)
    {
      int n = c.rule >= 0 ? static_cast<int>(model::plural_rules[c.rule].n) : 2;
      if (c.rich && r.chance(1, 8)) n = r.range(1, r.chance(1, 4) ? 10 : 7);
      else if (!c.rich && n > 1 && r.chance(1, 16)) n = r.range(1, n - 1);
      for (int i = 0; i < n; ++i) e.forms.push_back(i > 0 && r.chance(1, c.rich ? 10 : 20) ? Str() : text(c, e, i));
    }
    else e.forms.push_back(text(c, e, 0));
    if (r.chance(1, 14)) for (auto& f : e.forms) f.clear(); // not translated yet
    return e;
  }

  Strs all_ids() { Strs v; for (auto x : singles) v.push_back(x); for (auto x : plurals) v.push_back(x); return v; }

  std::vector<Ent> entries(const CatSpec& c, int lo, int hi, int fuzzy_percent)
  {
    std::vector<Ent> v;
    std::set<Str> used;
    int n = r.range(lo, hi);
    Strs ids = all_ids();
    if (c.rich && hi > 3 && r.chance(1, 30)) n = r.range(50, 250);
    bool crowd = n >= 50;
    for (int i = 0; i < n; ++i)
    {
      bool ctx = r.chance(1, 4);
      Str ctxt = ctx ? Str(contexts[r.below(2)]) : Str();
      Str id = crowd ? Str(r.chance(1, 5) ? "%d " : "") + "message " + tos(r.range(0, 400)) : ids[r.below(ids.size())];
      if (c.rich && ctx && r.chance(1, 25)) id = "";
      else if (c.rich && r.chance(1, 5)) id = odd_ids[r.below(many(odd_ids))];
      if (c.rich && r.chance(1, 60)) id += Str(static_cast<size_t>(r.range(50, 3000)), static_cast<char>('a' + r.below(26)));
      if (c.rich && r.chance(1, 25)) { Str x = random_char("UTF-8"); id += x; }
      if (c.rich && !v.empty() && r.chance(1, 15)) id = near(r.pick(v).id);
      if (c.rich && ctx && !v.empty() && r.chance(1, 15)) { const Ent& e = r.pick(v); ctxt = near(e.ctx ? e.ctxt : Str("menu")); if (r.chance(1, 2)) id = e.id; }
      if (c.rich && ctx && r.chance(1, 5)) ctxt = odd_contexts[r.below(many(odd_contexts))];
      if (c.rich && r.chance(1, 6)) id += r.chance(1, 2) ? "\nsecond line" : " \"q\"";
      if (!used.insert(Str(ctx ? "c" : "-") + ctxt + "|" + id).second && !(c.rich && r.chance(1, 4))) continue;
      v.push_back(entry(c, id, ctx, ctxt, fuzzy_percent));
    }
    if (known.size() < 300) known.insert(known.end(), v.begin(), v.end());
    return v;
  }

  // something no rule makes a message
  Str malformed(const CatSpec& c, const Str& nl)
  {
    Strs ids = all_ids();
    Str id = "msgid \"" + ids[r.below(ids.size())] + "\"" + nl, t = "\"" + c.tag + " malformed\"" + nl, pl = "msgid_plural \"many\"" + nl;
    Str f = r.chance(1, 4) ? "#, fuzzy" + nl : r.chance(1, 4) ? "#: a.cpp:1" + nl : Str();
    switch (r.below(12))
    {
      case 0: return f + id + "msgstr[0] " + t;
      case 1: return f + id + pl + "msgstr " + t;
      case 2: return f + "msgctxt " + t + "msgstr " + t;
      case 3: return f + id + id + "msgstr " + t;
      case 4: return f + id;
      case 5: return f + "msgstr " + t;
      case 6: return f + id + pl;
      case 7: return f + id + pl + "msgstr[] " + t;
      case 8: return f + id + pl + "msgstr[x] " + t;
      case 9: return f + "domain " + t;
      case 10: return f + "msgctxt " + t;
      default: return f + "msgid " + nl + "msgstr " + t;
    }
  }

  Strs blocks(const CatSpec& c, const std::vector<Ent>& es)
  {
    Str nl = c.crlf ? "\r\n" : "\n";
    Strs b;
    if (c.header) b.push_back(header_block(c, nl));
    for (auto& e : es)
    {
      b.push_back(entry_block(c, e, nl));
      if (c.rich && r.chance(1, 15)) b.push_back((r.chance(1, 3) ? "#, fuzzy" + nl : Str()) + "#~ msgid \"obsolete\"" + nl + "#~ msgstr \"obsolete text\"" + nl);
      if (c.loose && r.chance(1, 20)) b.push_back(malformed(c, nl));
      if (c.rich && r.chance(1, 25)) b.push_back("# just a comment" + nl);
    }
    return b;
  }

  Str join(const CatSpec& c, const Strs& b)
  {
    Str nl = c.crlf ? "\r\n" : "\n";
    Str t;
    if (c.bom) { t = "\xef\xbb\xbf"; if (c.rich && r.chance(1, 5)) t += nl; }
    if (c.rich && r.chance(1, 6)) t += "# Translator comment" + nl + nl;
    if (c.rich && r.chance(1, 16)) for (int i = r.range(5, r.chance(1, 2) ? 40 : 300); i > 0; --i) t += (r.chance(1, 12) ? Str() : "# licence, line " + tos(i)) + nl;
    for (size_t i = 0; i < b.size(); ++i)
    {
      if (i && c.loose && r.chance(1, 10))
      {
        static const char* const remarks[] = { "#", "# remark", "#\tremark", "# ", "# msgid \"x\"", "#\t", "# fuzzy" };
        t += remarks[r.below(many(remarks))] + nl;
        if (r.chance(1, 3)) t += nl;
      }
      else if (i) t += c.rich && r.chance(1, 10) ? Str(r.chance(1, 2) ? " \t" : "") + nl + (r.chance(1, 2) ? nl : Str()) : nl;
      t += b[i];
    }
    if (!c.final_newline) while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
    return t;
  }

  CatSpec rich_spec(const Str& tag)
  {
    CatSpec c;
    c.tag = tag;
    c.rich = true;
    c.charset = wide_sets[r.below(many(wide_sets))];
    if (!model::convertible(c.charset, "UTF-8")) c.charset = "UTF-8";
    c.chars = random_chars(c.charset, model::upper(c.charset) == "EUC-JP" ? "ISO-2022-JP" : "", r.range(2, 8));
    c.rule = r.chance(1, 8) ? (r.chance(1, 2) ? -1 : -2) : static_cast<int>(r.below(static_cast<uint64_t>(model::n_plural_rules)));
    c.header = !r.chance(1, 12);
    if (!c.header) { c.charset = "UTF-8"; c.rule = -1; c.chars = random_chars("UTF-8", "", 4); }
    c.crlf = r.chance(1, 8);
    c.bom = r.chance(1, 8);
    c.final_newline = r.chance(3, 4);
    if (c.header && r.chance(1, 15)) { c.header_charset = "CHARSET"; c.charset = "UTF-8"; c.chars = random_chars("UTF-8", "", 4); }
    if (r.chance(1, 3)) c.header_form = r.range(0, 3);
    c.loose = r.chance(1, 2);
    return c;
  }

  // targets a text over these characters can be converted to
  Str rich_target(const CatSpec& c)
  {
    static const char* const uni[] = { "UTF-8", "UTF-8", "UTF-8", "utf-8", "UTF-16LE", "UTF-16", "UTF-32", "UTF-7" };
    Str t = uni[r.below(8)];
    if (model::upper(c.charset) == "EUC-JP" && r.chance(1, 3)) t = "ISO-2022-JP";
    return t;
  }

  // ------------------------------------------------------------ single files
  void delivery(Op& o, const Str& path)
  {
    switch (r.below(5))
    {
      case 0: break;
      case 1: fault(o, "chunk", {path, "0", "1"}); break;
      case 2: fault(o, "chunk", {path, "3", "1"}); break;
      case 3: fault(o, "chunk", {path, "1", tos(static_cast<long>(1 + r.below(1000000)))}); break;
      default: fault(o, "chunk", {path, "2", tos(static_cast<long>(1 + r.below(1000000)))}); break;
    }
  }

  void gen_c01()
  {
    CatSpec c = rich_spec("c");
    Str bytes = join(c, blocks(c, entries(c, r.chance(1, 30) ? 0 : 1, 9, 15)));
    if (r.chance(1, 60)) bytes = r.chance(1, 2) ? Str() : Str(r.chance(1, 2) ? "\n\n" : "# nothing here\n");
    Str target = rich_target(c);
    if (r.chance(1, 6)) op("pedantic", {"0"});
    int n = r.range(2, 4);
    for (int i = 0; i < n; ++i)
    {
      Str d = "x" + tos(i);
      op("dict", {d, target});
      Op& o = op("parse", {d, "mem/de.po", r.chance(4, 5) ? "1" : "0", bytes});
      if (i == 1) fault(o, "chunk", {"mem/de.po", "0", "1"}); else if (i > 0) delivery(o, "mem/de.po");
    }
    if (r.chance(1, 3))
    {
      // the same bytes through a manager
      op("write", {"d0", "de.po", bytes});
      op("mgr", {"m", target});
      op("adddir", {"m", "d0", "0"});
      if (r.chance(1, 3)) op("setfuzzy", {"m", "0"});
      Op& o = op("getl", {"m", "de"});
      delivery(o, "d0/de.po");
    }
    if (r.chance(1, 3))
    {
      // several catalogues into one dictionary
      CatSpec c2 = rich_spec("k");
      Op& o = op("parse", {"x0", "mem/two.po", "1", join(c2, blocks(c2, entries(c2, 1, 5, 15)))});
      delivery(o, "mem/two.po");
    }
  }

  size_t interesting_offset(const Str& bytes)
  {
    size_t n = bytes.size();
    if (n == 0) return 0;
    switch (r.below(8))
    {
      case 0: return r.below(std::min<size_t>(n, 8) + 1);
      case 1: return n - r.below(std::min<size_t>(n, 8) + 1);
      case 2: case 3:
      {
        std::vector<size_t> nl;
        for (size_t i = 0; i < n; ++i) if (bytes[i] == '\n') nl.push_back(i);
        if (nl.empty()) return r.below(n + 1);
        return std::min(n, nl[r.below(nl.size())] + r.below(3));
      }
      case 4:
      {
        std::vector<size_t> q;
        for (size_t i = 0; i < n; ++i) if (bytes[i] == '"' || bytes[i] == '\\' || static_cast<unsigned char>(bytes[i]) >= 0x80) q.push_back(i);
        if (q.empty()) return r.below(n + 1);
        return std::min(n, q[r.below(q.size())] + r.below(2));
      }
      default: return r.below(n + 1);
    }
  }

  void gen_c02()
  {
    CatSpec c = rich_spec("c");
    if (r.chance(1, 2)) { c.charset = "UTF-8"; c.chars = random_chars("UTF-8", "", 5); c.header_charset = ""; }
    Str bytes = join(c, blocks(c, entries(c, 1, 8, 10)));
    int n = r.range(2, 6);
    for (int i = 0; i < n; ++i)
    {
      Str d = "x" + tos(i);
      op("dict", {d, "UTF-8"});
      Op& o = op("parse", {d, "mem/de.po", "1", bytes});
      fault(o, "read_cut", {"mem/de.po", tos(static_cast<long>(interesting_offset(bytes)))});
      if (r.chance(1, 3)) delivery(o, "mem/de.po");
    }
    if (r.chance(1, 2))
    {
      if (r.chance(1, 3)) s.opt["fs"] = "unix";
      op("mgr", {"m", "UTF-8"});
      op("adddir", {"m", "d0", "0"});
      if (r.chance(1, 2))
      {
        // lower-priority directory with the same messages
        CatSpec c2;
        c2.tag = "low";
        c2.chars = words("é");
        op("write", {"d1", "de.po", join(c2, blocks(c2, entries(c2, 2, 8, 0)))});
        op("adddir", {"m", "d1", "0"});
      }
      int k = r.range(1, 3);
      for (int i = 0; i < k; ++i)
      {
        // a writer that crashed: what is on disk ends anywhere
        Str torn = bytes.substr(0, interesting_offset(bytes));
        if (r.chance(1, 6)) torn += Str(static_cast<size_t>(r.range(1, 600)), '\0'); // tail allocated, never written
        op("write", {"d0", "de.po", torn});
        op("setcharset", {"m", "UTF-8"});
        Op& o = op("getl", {"m", "de"});
        if (r.chance(1, 3)) fault(o, "read_cut", {"d0/de.po", tos(static_cast<long>(interesting_offset(torn)))});
        if (r.chance(1, 3)) delivery(o, "d0/de.po");
        if (s.get("fs") == "unix") o.faults.clear();
      }
    }
  }

  Str damage(const Str& b)
  {
    Str x = b;
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
      if (x.empty()) break;
      size_t at = r.chance(1, 3) ? std::min(x.size() - 1, interesting_offset(x)) : r.below(x.size());
      size_t len = 1 + r.below(std::min<size_t>(x.size() - at, r.chance(1, 2) ? 3 : 20));
      switch (r.below(9))
      {
        case 0: x[at] = static_cast<char>(x[at] ^ (1 << r.below(8))); break;
        case 1: for (size_t j = 0; j < len; ++j) x[at + j] = '\0'; break;
        case 2: x.erase(at, len); break;
        case 3: x.insert(at, x.substr(at, len)); break;
        case 4: { Str ins; for (size_t j = 0; j < len; ++j) ins += static_cast<char>(r.below(256)); x.insert(at, ins); break; }
        case 5: x[at] = "\"\\m[]s#0 9"[r.below(10)]; break;
        case 6: case 7:
        { // whole lines dropped or doubled
          Strs lines;
          Str cur;
          for (char ch : x) { cur += ch; if (ch == '\n') { lines.push_back(cur); cur.clear(); } }
          if (!cur.empty()) lines.push_back(cur);
          size_t k = r.below(lines.size());
          if (r.chance(2, 3)) lines.erase(lines.begin() + static_cast<long>(k));
          else lines.insert(lines.begin() + static_cast<long>(k), lines[k]);
          x.clear();
          for (auto& l : lines) x += l;
          break;
        }
        default: for (size_t j = 0; j < len; ++j) x[at + j] = static_cast<char>(r.below(256)); break;
      }
    }
    return x;
  }

  void gen_c03()
  {
    CatSpec c = rich_spec("c");
    c.loose = false;
    c.header = true;
    if (r.chance(2, 3)) { c.charset = "UTF-8"; c.chars = random_chars("UTF-8", "", 5); c.header_charset = ""; }
    c.crlf = r.chance(1, 10);
    std::vector<Ent> es = entries(c, 3, 9, 8);
    Strs b = blocks(c, es);
    int n = r.range(2, 5);
    for (int i = 0; i < n; ++i)
    {
      Strs x = b;
      if (x.size() < 2) return;
      size_t k = 1 + r.below(x.size() - 1);
      x[k] = damage(x[k]);
      if (r.chance(1, 5)) { size_t k2 = 1 + r.below(x.size() - 1); x[k2] = damage(x[k2]); }
      if (!x[k].empty() && x[k].back() != '\n' && r.chance(3, 4)) x[k] += '\n'; // the separator survives
      CatSpec plain = c;
      Str nl = c.crlf ? "\r\n" : "\n", bytes;
      for (size_t j = 0; j < x.size(); ++j) bytes += (j ? nl : Str()) + x[j];
      if (!c.final_newline && r.chance(1, 2)) while (!bytes.empty() && (bytes.back() == '\n' || bytes.back() == '\r')) bytes.pop_back();
      Str d = "x" + tos(i);
      op("dict", {d, "UTF-8"});
      Op& o = op("parse", {d, "mem/de.po", r.chance(9, 10) ? "1" : "0", bytes});
      if (r.chance(1, 4)) delivery(o, "mem/de.po");
      if (i == 0 && r.chance(1, 3))
      {
        op("write", {"d0", "de.po", bytes});
        op("mgr", {"m", "UTF-8"});
        op("adddir", {"m", "d0", "0"});
        op("getl", {"m", "de"});
      }
    }
  }

  // ---------------------------------------------------------------- sessions
  struct MgrState { Strs dirs; Str cur, charset; };
  std::map<Str, std::map<Str, Str> > disk;
  std::map<Str, MgrState> mgrs;
  Strs family, requests;     // catalogue names and languages asked for
  bool latin = true;
  bool unix_fs = false;

  // how a catalogue of that language may be called
  Str file_name(const model::Lang& l)
  {
    Str c = l.country;
    if (r.chance(1, 5)) for (auto& x : c) x = static_cast<char>(tolower(x));
    Str f = l.lang + (c.empty() ? Str() : "_" + c);
    if (r.chance(1, 12)) f += r.chance(1, 2) ? ".UTF-8" : ".ISO-8859-1";
    return f + (l.modifier.empty() ? Str() : "@" + l.modifier) + ".po";
  }
  model::Lang random_lang() { return model::all_langs()[r.below(model::all_langs().size())]; }

  // some language out of all, with its variants
  void random_family()
  {
    family.clear();
    requests.clear();
    Str base = random_lang().lang;
    std::vector<model::Lang> v;
    for (auto& l : model::all_langs()) if (l.lang == base) v.push_back(l);
    r.shuffle(v);
    for (size_t i = 0; i < v.size() && i < 6; ++i)
    {
      if (i < 4) family.push_back(file_name(v[i]));
      requests.push_back(v[i].str());
    }
    if (r.chance(1, 4)) family.push_back(base + (r.chance(1, 2) ? "_XX.po" : "@none.po"));
    if (std::find(requests.begin(), requests.end(), base) == requests.end()) requests.push_back(base);
    if (r.chance(1, 2)) { model::Lang l = random_lang(); family.push_back(file_name(l)); requests.push_back(l.str()); }
    if (r.chance(1, 4)) requests.push_back(random_lang().str());
  }
  // many languages at once
  void many_languages(int n)
  {
    std::set<Str> seen;
    while (static_cast<int>(seen.size()) < n)
    {
      model::Lang l = random_lang();
      if (!seen.insert(l.str()).second) continue;
      requests.push_back(l.str());
      if (r.chance(2, 3)) family.push_back(file_name(l));
    }
  }

  void pick_family()
  {
    if (r.chance(1, 3)) { random_family(); return; }
    static const char* const fam[][2] = {
      { "de.po de_AT.po", "de de_AT de_DE de_CH" }, { "pt.po pt_BR.po", "pt pt_BR pt_PT" }, { "fr.po fr_CA.po", "fr fr_CA fr_FR" },
      { "en.po en_GB.po", "en en_GB en_US" }, { "sr.po sr@latin.po", "sr sr_YU sr@latin" }, { "zh_TW.po zh.po", "zh zh_TW zh_CN" },
      { "ca.po ca@valencia.po", "ca ca_ES ca@valencia ca_ES@valencia" }, { "es.po es_mx.po", "es es_MX es_ES" }, { "ru.po ru_RU.po", "ru ru_RU" },
    };
    int k = static_cast<int>(r.below(9));
    family = words(fam[k][0]);
    requests = words(fam[k][1]);
    if (r.chance(1, 3)) { family.push_back("pl.po"); requests.push_back("pl"); }
  }

  CatSpec plain_spec(const Str& tag)
  {
    CatSpec c;
    c.tag = tag;
    c.charset = latin_sets[r.below(many(latin_sets))];
    c.chars = words("é ü ß ñ ç");
    if (!latin && r.chance(1, 4)) { c.charset = "KOI8-R"; c.chars = words("п р и"); }
    static const int rules[] = { 1, 1, 3, 6, 10, 9 };
    c.rule = rules[r.below(6)];
    c.final_newline = !r.chance(1, 8);
    return c;
  }

  int fuzzy_percent = 15;

  Str catalogue(const Str& tag, int lo = 1, int hi = 7)
  {
    CatSpec c = plain_spec(tag);
    return join(c, blocks(c, entries(c, lo, hi, fuzzy_percent)));
  }

  void put(const Str& d, const Str& f, const Str& bytes)
  {
    disk[d][f] = bytes;
    op("write", {d, f, bytes});
  }
  bool big_catalogues = false;
  void put_catalogue(const Str& d, const Str& f)
  {
    Str tag = d + f.substr(0, f.size() - 3);
    if (big_catalogues && r.chance(1, 3)) put(d, f, catalogue(tag, 20, 90));
    else put(d, f, catalogue(tag));
  }

  void make_disk(int ndirs, int percent)
  {
    for (int i = 0; i < ndirs; ++i)
    {
      Str d = "d" + tos(i);
      if (!disk.count(d)) { disk[d]; op("mkdir", {d}); }
      for (auto& f : family) if (r.chance(percent, 100)) put_catalogue(d, f);
      if (r.chance(1, 4)) noise(d);
    }
  }
  void noise(const Str& d)
  {
    static const char* const names[] = { "README", "xx.po", "de.po~", "x.pot", ".po", "notes.txt", "po", "de.po.bak", "klingon.po", "A", "german.po", "deutsch.po", "French.po", "DE.po", "de.PO", "deu.po" };
    put(d, names[r.below(many(names))], r.chance(1, 2) ? Str("nothing to see\n") : Str());
  }

  Str choose(const Str& d, const Str& lang)
  {
    Str best;
    int best_score = 0;
    for (auto& f : disk[d])
    {
      if (!model::is_catalogue(f.first)) continue;
      model::Lang l = model::lang_of_file(f.first);
      if (!l.defined()) continue;
      int sc = model::score(model::lang_of(lang), l);
      if (sc > best_score) { best_score = sc; best = f.first; }
    }
    return best;
  }

  struct Mix
  {
    int get = 10, setlang = 2, adddir = 2, rmdir = 1, charset = 1, fuzzy = 1, langs = 1, write = 3, rm = 1, rmdisk = 0, delmgr = 0;
    // percentage of requests that get a fault of each kind
    int list = 0, open = 0, read = 0, other = 0, badcs = 0, iconv = 0, alloc = 0, chunk = 15, cut = 0;
    int alloc_config = 0;
    bool alt_charsets = true, no_charset = false;
    bool two_managers = true;
  };

  void list_fault(Op& o, const Str& d)
  {
    if (!unix_fs) { fault(o, r.chance(1, 4) ? "list_other" : "list_throw", {d}); return; }
    static const int errs[] = { 13 /*EACCES*/, 24 /*EMFILE*/, 5 /*EIO*/, 12 /*ENOMEM*/, 2 };
    if (r.chance(1, 2)) fault(o, "list_errno", {d, tos(errs[r.below(5)])});
    else if (r.chance(1, 6)) fault(o, "fdopendir_err", {d});
    else fault(o, "readdir_err", {d, tos(static_cast<long>(r.below(12)))});
  }
  void open_fault(Op& o, const Str& p)
  {
    if (unix_fs) { static const int errs[] = { 13, 24, 5, 2, 12 }; fault(o, "open_errno", {p, tos(errs[r.below(5)])}); return; }
    static const char* const k[] = { "open_null", "open_throw", "open_bad" };
    fault(o, k[r.below(3)], {p});
  }
  void read_fault(Op& o, const Str& p)
  {
    size_t s = p.rfind('/');
    const Str& b = disk[p.substr(0, s)][p.substr(s + 1)];
    fault(o, "read_err", {p, tos(static_cast<long>(interesting_offset(b)))});
  }
  void alloc_fault(Op& o, bool burst = true)
  {
    // position relative to the allocations of the calm run, fixed to a number before the run
    Strs a = { "p" + tos(static_cast<long>(r.below(1001))) };
    if (burst && r.chance(1, 6)) a.push_back(tos(r.chance(1, 2) ? r.range(2, 6) : 1000000));
    fault(o, "alloc", a);
  }

  // faults for a request for lang (both its own and its base catalogues)
  void request_faults(Op& o, const Str& mname, const Str& lang, const Mix& x)
  {
    if (lang.empty()) return;
    MgrState& m = mgrs[mname];
    Strs paths, dirs;
    model::Lang l = model::lang_of(lang);
    for (auto& d : m.dirs)
    {
      if (!disk.count(d)) continue;
      dirs.push_back(d);
      for (auto& q : {lang, l.lang})
      {
        Str f = choose(d, q);
        if (!f.empty()) paths.push_back(d + "/" + f);
      }
    }
    if (r.chance(x.alloc, 100)) alloc_fault(o);
    if (r.chance(x.list, 100) && !dirs.empty()) list_fault(o, r.pick(dirs));
    if (paths.empty()) return;
    if (r.chance(x.open, 100)) open_fault(o, r.pick(paths));
    if (r.chance(x.other, 100) && !unix_fs) fault(o, "open_other", {r.pick(paths)});
    if (r.chance(x.read, 100)) read_fault(o, r.pick(paths));
    if (r.chance(x.iconv, 100)) { static const int e[] = { 12, 24, 22 }; fault(o, "iconv_open", {"*", tos(e[r.below(3)])}); }
    if (r.chance(x.cut, 100) && !unix_fs)
    {
      Str p = r.pick(paths);
      size_t sl = p.rfind('/');
      fault(o, "read_cut", {p, tos(static_cast<long>(interesting_offset(disk[p.substr(0, sl)][p.substr(sl + 1)])))});
    }
    if (r.chance(x.chunk, 100)) delivery(o, r.pick(paths));
    if (unix_fs && r.chance(x.chunk, 100)) fault(o, "eintr", {r.pick(paths), tos(r.range(1, 3))});
  }

  void order(Op& o) { if (r.chance(1, 2)) fault(o, "order", {tos(static_cast<long>(1 + r.below(1000000)))}); }

  Str some_charset()
  {
    static const char* const v[] = { "UTF-8", "UTF-8", "UTF-8", "ISO-8859-1", "ISO-8859-1", "ISO-8859-15", "ISO-8859-15", "CP1252", "utf-8", "UTF-16LE", "iso-8859-1", "ISO8859-1", "ISO-8859-15//TRANSLIT", "ISO_8859-1:1987//TRANSLIT" };
    return v[r.below(many(v))];
  }
  bool alt_charsets = false;  // managers may begin with another charset than UTF-8
  void new_mgr(const Str& name)
  {
    mgrs[name].charset = alt_charsets && r.chance(1, 3) ? some_charset() : Str("UTF-8");
    op("mgr", {name, mgrs[name].charset});
  }
  void add_dir(const Str& m, const Str& d, bool first)
  {
    Op& o = op("adddir", {m, d, first ? "1" : "0"});
    (void)o;
    Strs& v = mgrs[m].dirs;
    if (std::find(v.begin(), v.end(), d) == v.end()) { if (first) v.insert(v.begin(), d); else v.push_back(d); }
  }

  void session(int nops, const Mix& x)
  {
    alt_charsets = x.alt_charsets;
    new_mgr("m");
    Strs dirs;
    for (auto& d : disk) dirs.push_back(d.first);
    Strs shuffled = dirs;
    r.shuffle(shuffled);
    for (auto& d : shuffled) if (r.chance(4, 5)) add_dir("m", d, r.chance(1, 4));
    if (x.two_managers && r.chance(1, 4)) { new_mgr("n"); add_dir("n", r.pick(dirs), false); }
    if (r.chance(1, 2)) { Str l = r.pick(requests); op("setlang", {"m", l}); mgrs["m"].cur = l; }
    for (int i = 0; i < nops; ++i) session_op(x, dirs);
  }

  void session_op(const Mix& x, const Strs& dirs)
  {
    Strs names;
    for (auto& m : mgrs) names.push_back(m.first);
    Str m = r.pick(names);
    if (m != "m" && r.chance(1, 2) && mgrs.count("m")) m = "m";
    int w[] = { x.get, x.setlang, x.adddir, x.rmdir, x.charset, x.fuzzy, x.langs, x.write, x.rm, x.rmdisk, x.delmgr };
    int total = 0;
    for (int v : w) total += v;
    int pick = static_cast<int>(r.below(static_cast<uint64_t>(total))), k = 0;
    while (pick >= w[k]) pick -= w[k++];
    MgrState& st = mgrs[m];
    size_t config_op = s.ops.size();
    switch (k)
    {
      case 0:
      {
        bool cur = r.chance(2, 5);
        Str lang = cur ? st.cur : r.pick(requests);
        Op& o = cur ? op("get", {m}) : op("getl", {m, lang});
        order(o);
        request_faults(o, m, lang, x);
        return;
      }
      case 1: { Str l = r.chance(1, 8) ? Str() : r.pick(requests); op("setlang", {m, l}); st.cur = l; break; }
      case 2: add_dir(m, r.pick(dirs), r.chance(1, 3)); break;
      case 3:
      {
        Str d = r.pick(dirs);
        op("rmdir", {m, d});
        st.dirs.erase(std::remove(st.dirs.begin(), st.dirs.end(), d), st.dirs.end());
        break;
      }
      case 4:
      {
        Str cs = x.alt_charsets ? some_charset() : Str("UTF-8");
        if (x.no_charset && r.chance(1, 10)) cs = "NO-SUCH-CHARSET";
        op("setcharset", {m, cs});
        st.charset = cs;
        break;
      }
      case 5: op("setfuzzy", {m, r.chance(1, 2) ? "1" : "0"}); break;
      case 6:
      {
        Op& o = op("langs", {m});
        order(o);
        Strs ds;
        for (auto& d : st.dirs) if (disk.count(d)) ds.push_back(d);
        if (!ds.empty() && r.chance(x.list, 100)) list_fault(o, r.pick(ds));
        if (r.chance(x.alloc, 100)) alloc_fault(o);
        return;
      }
      case 7:
      {
        Str d = r.pick(dirs);
        if (!disk.count(d)) disk[d];
        if (r.chance(1, 12)) { noise(d); return; }
        Str f = r.pick(family);
        if (disk[d][f] == subdir_mark) return;
        if (r.chance(x.badcs, 100))
        {
          CatSpec c = plain_spec(d + "bad");
          static const char* const badnames[] = { "NO-SUCH-CHARSET", "UTF-99", "x", "WTF-8" };
          c.header_charset = badnames[r.below(4)];
          put(d, f, join(c, blocks(c, entries(c, 1, 5, 0))));
        }
        else put_catalogue(d, f);
        return;
      }
      case 8:
      {
        Str d = r.pick(dirs);
        if (!disk.count(d) || disk[d].empty()) return;
        Strs fs;
        for (auto& f : disk[d]) fs.push_back(f.first);
        Str f = r.pick(fs);
        disk[d].erase(f);
        op("rm", {d, f});
        return;
      }
      case 9:
      {
        Str d = r.pick(dirs);
        if (disk.count(d)) { op("rmdisk", {d}); disk.erase(d); }
        else { op("mkdir", {d}); disk[d]; if (r.chance(1, 2)) put_catalogue(d, r.pick(family)); }
        return;
      }
      case 10:
        if (m == "n") { op("delmgr", {m}); mgrs.erase(m); }
        return;
    }
    if (r.chance(x.alloc_config, 100) && config_op < s.ops.size()) alloc_fault(s.ops[config_op]);
  }

  void start_session(int lo, int hi, int percent)
  {
    pick_family();
    int nd = r.range(lo, hi);
    // now and then a crowd: many directories, many languages, many files, long catalogues
    bool many_files = false;
    if (r.chance(1, 16))
    {
      if (r.chance(1, 2)) { nd = r.range(5, 20); percent = r.range(10, percent); }
      if (r.chance(1, 2)) more_languages(r.range(6, 30));
      if (r.chance(1, 2)) many_files = true;
      if (r.chance(1, 2)) big_catalogues = true;
    }
    make_disk(nd, percent);
    if (!many_files) return;
    for (auto& d : disk)
      if (r.chance(1, 2))
        for (int i = r.range(8, 80); i > 0; --i)
          put(d.first, "f" + tos(static_cast<long>(r.below(1000))) + (r.chance(1, 4) ? ".po" : r.chance(1, 3) ? ".po~" : ""), r.chance(1, 2) ? Str("nothing to see\n") : Str());
  }
  void more_languages(int n)
  {
    static const char* const pool[] = { "af", "bg", "bg_BG", "cs", "cs_CZ", "da", "el", "eo", "et", "eu", "fi", "ga", "he", "hr", "hu", "is", "it", "it_CH", "ja", "ja_JP",
      "ko", "lt", "lt_LT", "mk", "nb", "nl", "nl_BE", "nn", "pl_PL", "ro", "sk", "sl", "sl_SI", "sv", "tr", "uk", "vi", "cy", "mt", "ar_SA" };
    for (int i = 0; i < n; ++i)
    {
      Str l = pool[r.below(many(pool))];
      if (std::find(requests.begin(), requests.end(), l) != requests.end()) continue;
      requests.push_back(l);
      if (std::find(family.begin(), family.end(), l + ".po") == family.end() && r.chance(2, 3)) family.push_back(l + ".po");
    }
  }

  void gen_c04()
  {
    unix_fs = r.chance(1, 4);
    if (unix_fs) s.opt["fs"] = "unix";
    latin = false;
    start_session(1, 3, 75);
    Mix x;
    x.alt_charsets = false;
    x.charset = 3;
    x.langs = 1;
    x.rmdisk = r.chance(1, 3) ? 1 : 0;
    x.badcs = 15;
    // swarm: not every kind of fault in every run
    if (r.chance(2, 3)) x.list = 15;
    if (r.chance(2, 3)) x.open = 25;
    if (r.chance(2, 3)) x.read = 40;
    if (r.chance(1, 4)) x.iconv = 15;
    if (r.chance(1, 4)) x.other = 10;
    if (r.chance(1, 6)) { Str d = "d0"; Str f = family[0]; if (!disk[d].count(f)) put(d, f, subdir_mark); }
    session(r.range(6, 16), x);
  }

  void gen_c05()
  {
    s.opt["orders"] = "4";
    s.opt["order_base"] = tos(static_cast<long>(r.below(1000000)));
    if (r.chance(1, 4)) { unix_fs = true; s.opt["fs"] = "unix"; }
    if (unix_fs) s.opt["orders"] = "1"; // one session; the order changes from request to request
    static const char* const fam[][2] = {
      { "de_AT.po de_CH.po de_DE.po de.po de.UTF-8.po de_AT.ISO-8859-1.po de_at.po", "de de_AT de_CH de_DE" },
      { "pt_BR.po pt_PT.po pt_br.po pt.po", "pt pt_BR pt_PT" },
      { "en_GB.po en_US.po en@quot.po en_US@piglatin.po en.po", "en en_GB en_US en@quot en_US@piglatin" },
      { "ca_ES.po ca@valencia.po ca_ES@valencia.po ca.po", "ca ca_ES ca@valencia ca_ES@valencia" },
      { "zh_CN.po zh_TW.po zh_HK.po zh_tw.po", "zh zh_TW zh_CN zh_HK" },
      { "sr_YU.po sr@latin.po sr.po", "sr sr_YU sr@latin" },
      { "es_MX.po es_ES.po es_mx.po", "es es_MX es_ES" },
    };
    int k = static_cast<int>(r.below(7));
    family = words(fam[k][0]);
    requests = words(fam[k][1]);
    // catalogues of other languages lie among them
    if (r.chance(1, 2))
    {
      int k2 = static_cast<int>(r.below(7));
      if (k2 != k)
      {
        for (auto& f : words(fam[k2][0])) family.push_back(f);
        for (auto& l : words(fam[k2][1])) requests.push_back(l);
      }
    }
    if (r.chance(1, 3)) more_languages(r.chance(1, 6) ? r.range(6, 30) : r.range(1, 5));
    int nd = r.chance(1, 12) ? r.range(3, 6) : r.range(1, 2);
    for (int i = 0; i < nd; ++i)
    {
      Str d = "d" + tos(i);
      op("mkdir", {d});
      disk[d];
      for (auto& f : family) if (r.chance(3, 5)) put_catalogue(d, f);
      for (int j = r.range(0, 2); j > 0; --j) noise(d);
    }
    new_mgr("m");
    for (auto& d : disk) if (r.chance(9, 10)) add_dir("m", d.first, r.chance(1, 2));
    int n = r.range(3, 8);
    for (int i = 0; i < n; ++i)
    {
      Op& o = op("getl", {"m", r.pick(requests)});
      fault(o, "order", {tos(static_cast<long>(1 + r.below(1000000)))});
      if (r.chance(1, 2)) { Op& l = op("langs", {"m"}); fault(l, "order", {tos(static_cast<long>(1 + r.below(1000000)))}); }
      if (r.chance(1, 2)) op("setcharset", {"m", "UTF-8"});
      if (r.chance(1, 6)) { Str d = r.chance(1, 2) ? "d0" : disk.rbegin()->first; put_catalogue(d, r.pick(family)); }
    }
  }

  void gen_c06()
  {
    fuzzy_percent = 30;
    start_session(1, 4, 70);
    Mix x;
    x.no_charset = r.chance(1, 4);
    x.adddir = 3; x.rmdir = 2; x.charset = 2; x.fuzzy = 2; x.write = 4; x.rm = 1; x.setlang = 3; x.delmgr = 1;
    if (r.chance(1, 10)) { many_languages(r.range(6, 20)); x.get = 20; for (auto& d : disk) for (auto& f : family) if (r.chance(1, 3)) put_catalogue(d.first, f); session(r.range(20, 50), x); return; }
    session(r.range(8, 24), x);
  }

  void gen_c07()
  {
    unix_fs = r.chance(1, 6);
    if (unix_fs) s.opt["fs"] = "unix";
    start_session(1, 3, 75);
    Mix x;
    x.write = 4; x.setlang = 3; x.langs = 2;
    x.rmdisk = r.chance(1, 4) ? 2 : 0;
    if (r.chance(3, 4)) x.list = 30;
    if (r.chance(1, 2)) x.other = 20;
    if (r.chance(1, 2)) { x.alloc = 25; x.alloc_config = r.chance(1, 2) ? 20 : 0; }
    if (r.chance(1, 3)) x.read = 20;
    if (r.chance(1, 3)) x.open = 15;
    session(r.range(8, 20), x);
  }

  void gen_c08()
  {
    start_session(1, 3, 75);
    Mix x;
    x.get = 12; x.setlang = 5; x.langs = 3; x.write = 5; x.rm = 3; x.adddir = 2; x.rmdir = 1;
    x.charset = r.chance(1, 2) ? 1 : 0; x.fuzzy = r.chance(1, 3) ? 1 : 0;
    x.rmdisk = r.chance(1, 3) ? 1 : 0;
    if (r.chance(1, 2)) x.list = 12;
    if (r.chance(1, 3)) x.alloc = 8;
    if (r.chance(2, 5)) x.alloc_config = 40;
    if (r.chance(1, 4))
    {
      // far more languages than anyone uses, none of which may push another one out
      many_languages(r.range(10, 60));
      for (auto& d : disk) for (auto& f : family) if (!d.second.count(f) && r.chance(1, 3)) put(d.first, f, catalogue(d.first + f.substr(0, f.size() - 3), 1, 3));
      x.adddir = x.rmdir = x.charset = x.fuzzy = 0;
      x.list = x.alloc = x.alloc_config = 0;
      session(r.range(2, 8), x);
      Strs tour = requests;
      for (int i = r.range(1, 2); i > 0; --i)
      {
        r.shuffle(tour);
        for (auto& l : tour) { op("getl", {"m", l}); if (r.chance(1, 8)) session_op(x, Strs(1, "d0")); }
      }
      return;
    }
    session(r.range(10, 26), x);
    // redundant configuration calls: every known directory once more, an unknown one removed
    if (r.chance(1, 2))
    {
      for (auto& d : mgrs["m"].dirs) op("adddir", {"m", d, "0"});
      op("rmdir", {"m", "nowhere"});
      op("getl", {"m", r.pick(requests)});
    }
  }

  // single lookups, some of them running out of memory
  void asks(const Str& who, const Str& lang, int n, int alloc_percent)
  {
    for (; n > 0; --n)
    {
      Ent e;
      if (!known.empty() && r.chance(9, 10)) e = r.pick(known); else e.id = Str("no such message") + Str(static_cast<size_t>(r.range(0, 40)), '.');
      if (r.chance(1, 12)) e.ctx = !e.ctx;
      bool plural = r.chance(e.plural ? 4 : 1, 5);
      Op& o = op("ask", {who, lang, e.ctx ? "1" : "0", e.ctx ? e.ctxt : Str(), e.id, plural ? tos(r.range(0, 25)) : Str("-")});
      if (r.chance(alloc_percent, 100)) alloc_fault(o);
    }
  }

  void gen_c09()
  {
    int kind = static_cast<int>(r.below(11));
    if (kind == 10)
    {
      // long texts, so that handing them out needs memory
      int n = r.range(1, 3);
      for (int i = 0; i < n; ++i)
      {
        Str d = "x" + tos(i);
        op("dict", {d, r.chance(3, 4) ? Str("UTF-8") : rich_target(plain_spec("z"))});
        if (r.chance(1, 2)) op("setpf", {d, tos(static_cast<long>(r.below(static_cast<uint64_t>(model::n_plural_rules))))});
        for (int k = r.range(1, 5); k > 0; --k)
        {
          Ent e;
          e.id = all_ids()[r.below(all_ids().size())] + (r.chance(1, 2) ? Str(30, 'i') : Str());
          e.ctx = r.chance(1, 3);
          if (e.ctx) e.ctxt = r.chance(1, 2) ? Str("menu") : Str(25, 'c');
          e.plural = r.chance(1, 2);
          for (int f = e.plural ? r.range(1, 4) : 1; f > 0; --f) e.forms.push_back("t" + tos(++serial) + Str(static_cast<size_t>(r.chance(1, 4) ? 0 : r.range(12, 200)), static_cast<char>('a' + r.below(26))));
          known.push_back(e);
          if (!e.plural) op("add1", {d, e.ctx ? "1" : "0", e.ctxt, e.id, e.forms[0]});
          else
          {
            Strs a = { d, e.ctx ? "1" : "0", e.ctxt, e.id, e.id + "s" };
            a.insert(a.end(), e.forms.begin(), e.forms.end());
            op("addn", a);
          }
        }
        if (i) op("fall", {"x" + tos(i - 1), d});
      }
      asks("x0", "", r.range(2, 12), 70);
      asks("x0", "", 2, 0);
      return;
    }
    if (kind < 2)
    {
      Op& o = op("tables", {tos(static_cast<long>(r.below(1000000)))});
      alloc_fault(o);
      if (r.chance(1, 2)) { Op& p = op("tables", {tos(static_cast<long>(r.below(1000000)))}); if (r.chance(1, 2)) alloc_fault(p); }
      return;
    }
    if (kind < 5)
    {
      CatSpec c = rich_spec("c");
      Str bytes = join(c, blocks(c, entries(c, 1, 7, 10)));
      op("dict", {"x", rich_target(c)});
      Op& o = op("parse", {"x", "mem/de.po", "1", bytes});
      alloc_fault(o);
      if (r.chance(1, 3)) delivery(o, "mem/de.po");
      if (r.chance(1, 3)) asks("x", "", r.range(1, 3), 60);
      op("tables", {"1"});
      op("dict", {"y", "UTF-8"});
      op("parse", {"y", "mem/de.po", "1", bytes});
      if (r.chance(1, 2)) asks("y", "", r.range(1, 8), 60);
      if (r.chance(1, 3)) conversions(r.range(1, 6), 40);
      return;
    }
    unix_fs = r.chance(1, 4);
    if (unix_fs) s.opt["fs"] = "unix";
    start_session(1, 2, 80);
    Mix x;
    x.alloc = 45;
    x.alloc_config = 25;
    x.langs = 2;
    x.charset = 2;
    int rounds = r.range(1, 3);
    session(r.range(3, 9) / rounds, x);
    Strs ds;
    for (auto& d : disk) ds.push_back(d.first);
    for (int i = 1; i < rounds; ++i)
    {
      asks("m", r.pick(requests), r.range(1, 4), 60);
      for (int k = r.range(1, 4); k > 0; --k) session_op(x, ds);
    }
    if (r.chance(1, 2)) op("tables", {"5"});
    op("setcharset", {"m", "UTF-8"});
    for (auto& q : requests) op("getl", {"m", q});
    asks("m", r.pick(requests), r.range(1, 6), 60);
  }

  // ------------------------------------------------------------- conversions
  void conversions(int nops, int alloc_percent)
  {
    static const char* const src[] = { "UTF-8", "utf-8", "ISO-8859-1", "ISO-8859-15", "KOI8-R", "EUC-JP", "SHIFT_JIS", "BIG5", "GB18030", "CP1252", "UTF-16LE", "UTF-16BE", "UTF-7", "ISO-2022-JP", "UTF-32LE" };
    static const char* const dst[] = { "UTF-8", "UTF-8", "ISO-8859-1", "ASCII//TRANSLIT", "UTF-16", "UTF-16LE", "UTF-32", "UTF-7", "ISO-2022-JP", "ISO-2022-KR", "EUC-JP", "GB18030", "KOI8-R", "CP1252", "utf-8", "ISO-2022-JP-2", "EUC-TW" };
    static const char* const more_src[] = { "EUC-KR", "GBK", "GB2312", "BIG5-HKSCS", "CP932", "CP949", "EUC-TW", "IBM037", "IBM500", "CP1250", "CP1251", "CP1253", "CP1254", "CP1255", "CP1256", "CP1257", "CP1258",
      "TCVN", "VISCII", "EUC-JISX0213", "SHIFT_JISX0213", "JOHAB", "ISO-8859-2", "ISO-8859-5", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", "ISO-8859-13", "TIS-620", "ARMSCII-8", "GEORGIAN-PS", "KOI8-U", "KOI8-T",
      "MACINTOSH", "IBM850", "IBM437", "HP-ROMAN8", "ISO_6937", "T.61", "UCS-2LE", "UCS-4LE", "UTF-32BE", "US-ASCII", "Iso-8859-1", "eucJP", "sjis", "latin1", "ISO-2022-KR", "ISO-2022-JP-3", "CP737" };
    static const char* const more_dst[] = { "EUC-KR", "GBK", "BIG5", "BIG5-HKSCS", "CP932", "SHIFT_JIS", "IBM037", "IBM930", "IBM939", "CP1251", "CP1255", "CP1258", "TCVN", "VISCII", "EUC-JISX0213", "SHIFT_JISX0213",
      "ISO-8859-2", "ISO-8859-15", "TIS-620", "KOI8-U", "ISO_6937", "UCS-2", "UCS-4", "UTF-16BE", "UTF-32BE", "UTF-32LE", "US-ASCII", "ASCII", "latin1", "ISO-8859-1//TRANSLIT", "koi8-r", "KOI8-R//TRANSLIT",
      "SHIFT_JIS//TRANSLIT", "ISO-2022-CN", "ISO-2022-JP-3", "ISO-2022-JP-1", "CP949", "JOHAB", "EUC-TW", "IBM933" };
    static const char* const none[] = { "NO-SUCH-CHARSET", "", "UTF-99" };
    std::map<Str, std::pair<Str, Str> > live;
    for (int i = 0; i < nops; ++i)
    {
      Str c = "c" + tos(r.range(0, 1));
      int k = live.count(c) ? static_cast<int>(r.below(10)) : 0;
      if (k <= 2)
      {
        Str from = r.chance(1, 10) ? none[r.below(3)] : r.chance(1, 2) ? src[r.below(15)] : more_src[r.below(many(more_src))];
        Str to = r.chance(1, 10) ? none[r.below(3)] : r.chance(2, 3) ? dst[r.below(17)] : more_dst[r.below(many(more_dst))];
        if (r.chance(1, 12)) to = from;
        bool fresh = !live.count(c);
        if (!fresh && !live[c].first.empty() && r.chance(1, 3))
        {
          // the other end stays, and the name changes a little at most
          auto near = [&](const Str& old)
          {
            Strs like;
            Str b = model::upper(old);
            auto consider = [&](const char* n) { Str u = model::upper(n); size_t k = 0; while (k < u.size() && k < b.size() && u[k] == b[k]) ++k; if (k >= 2 && old != n) like.push_back(n); };
            for (auto n : src) consider(n);
            for (auto n : dst) consider(n);
            for (auto n : more_src) consider(n);
            for (auto n : more_dst) consider(n);
            return like.empty() ? old : r.pick(like);
          };
          from = live[c].first;
          to = live[c].second;
          if (r.chance(2, 3)) from = near(from); else to = near(to);
          if (r.chance(1, 6)) std::swap(from, to);
        }
        if (fresh && r.chance(1, 3)) { from = ""; to = ""; }
        if (fresh && from.empty()) { op("cnew", {c, "", ""}); live[c] = {"", ""}; continue; }
        Op& o = op(fresh ? "cnew" : "cset", {c, from, to});
        bool faulty = false;
        if (r.chance(1, 8)) { static const int e[] = { 12, 24, 22 }; fault(o, "iconv_open", {r.chance(2, 3) ? "1" : "*", tos(e[r.below(3)])}); faulty = true; }
        if (r.chance(alloc_percent, 100)) { alloc_fault(o); faulty = true; }
        if (!faulty && model::convertible(from, to)) live[c] = {from, to};
        else if (fresh && faulty) { op("cnew", {c, "", ""}); live[c] = {"", ""}; }
      }
      else if (k == 3 && r.chance(1, 2)) { op("cdel", {c}); live.erase(c); }
      else
      {
        auto& p = live[c];
        Str t;
        int len = r.chance(1, 10) ? r.range(50, 400) : r.range(0, 8);
        static const char* const chars[] = { "a", "Z", " ", "+", "\\", "~", "é", "ß", "€", "п", "ж", "日", "本", "語", "か", "中", "文", "한", "글", "\xf0\x9f\x98\x80", "½", "™", "…", "ﬃ" };
        Str enc;
        bool own_chars = r.chance(1, 2), any_chars = r.chance(1, 4);
        for (int j = 0; j < len; ++j)
        {
          Str ch = own_chars && !p.first.empty() && r.chance(2, 3) ? random_char(p.first) : any_chars && r.chance(1, 2) ? random_char("UTF-8") : Str();
          t += ch.empty() ? Str(chars[r.below(24)]) : ch;
        }
        if (!p.first.empty() && model::upper(p.first) != "UTF-8")
        {
          // only what both ends can express, most of the time
          bool strict = r.chance(4, 5);
          Str kept;
          size_t at = 0;
          while (at < t.size())
          {
            unsigned char b = static_cast<unsigned char>(t[at]);
            size_t n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
            Str ch = t.substr(at, n);
            at += n;
            if (!model::convert("UTF-8", p.first, ch).valid) continue;
            if (strict && !model::convert("UTF-8", p.second, ch).valid) continue;
            kept += ch;
          }
          enc = model::convert("UTF-8", p.first, kept).out_flushed;
        }
        else if (!p.first.empty() && r.chance(4, 5))
        {
          size_t at = 0;
          while (at < t.size())
          {
            unsigned char b = static_cast<unsigned char>(t[at]);
            size_t n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
            Str ch = t.substr(at, n);
            at += n;
            if (model::convert("UTF-8", p.second, ch).valid) enc += ch;
          }
        }
        else enc = t;
        if (!enc.empty() && r.chance(1, 30))
        {
          // a text of many thousand bytes, so that blocks of any usual size end within it
          bool whole = model::convert(p.first.empty() ? Str("UTF-8") : p.first, "UTF-8", enc).valid;
          Str unit = enc;
          size_t want = static_cast<size_t>(r.range(1000, 20000));
          if (whole) while (enc.size() < want) { enc += unit; if (r.chance(1, 3) && (p.first.empty() || model::convertible(p.first, "ASCII"))) enc += model::convert("UTF-8", p.first.empty() ? Str("UTF-8") : p.first, "a").out; }
        }
        if (r.chance(1, 6))
        {
          // invalid or truncated text
          if (!enc.empty() && r.chance(1, 2)) enc.resize(r.below(enc.size()));
          else enc.insert(r.below(enc.size() + 1), 1, static_cast<char>(0x80 + r.below(128)));
        }
        Op& o = op("conv", {c, enc});
        if (r.chance(alloc_percent, 100)) alloc_fault(o);
      }
    }
  }

  void gen_c10() { conversions(r.range(4, 24), r.chance(1, 4) ? 12 : 0); }

  void gen_c13()
  {
    int kind = static_cast<int>(r.below(4));
    if (r.chance(1, 3)) s.opt["pedantry"] = "1";
    auto callbacks = [&](int percent)
    {
      std::vector<Op> out;
      for (auto& o : s.ops)
      {
        if (r.chance(percent, 100)) { Op c; c.name = "cb"; c.a = { tos(r.range(0, 2)), tos(r.range(0, 6)) }; out.push_back(c); }
        if (r.chance(1, 20)) { Op c; c.name = "pedantic"; c.a = { tos(r.range(0, 1)) }; out.push_back(c); }
        out.push_back(o);
        if ((o.name == "get" || o.name == "getl" || o.name == "parse") && r.chance(1, 2)) { Op c; c.name = "probe"; out.push_back(c); }
      }
      s.ops = out;
    };
    if (kind == 0)
    {
      CatSpec c = rich_spec("c");
      op("dict", {"x", "UTF-8"});
      for (int i = r.range(1, 3); i > 0; --i)
      {
        Strs b = blocks(c, entries(c, 2, 6, 10));
        if (b.size() > 1 && r.chance(1, 2)) { size_t k = 1 + r.below(b.size() - 1); b[k] = damage(b[k]); }
        op("parse", {"x", "mem/de.po", "1", join(c, b)});
      }
      op("add1", {"x", "0", "", "alpha", "again"});
      callbacks(60);
      return;
    }
    unix_fs = r.chance(1, 8);
    if (unix_fs) s.opt["fs"] = "unix";
    start_session(1, 3, 75);
    if (r.chance(1, 2))
    {
      CatSpec c = rich_spec("dd");
      c.charset = "UTF-8"; c.header_charset = ""; c.chars = words("é");
      Strs b = blocks(c, entries(c, 2, 6, 10));
      size_t k = r.below(b.size());
      b[k] = damage(b[k]);
      put("d0", family[0], join(c, b));
    }
    Mix x;
    x.alt_charsets = r.chance(1, 2);
    x.badcs = 10;
    if (r.chance(1, 2)) { x.list = 10; x.open = 10; x.read = 15; x.other = 5; }
    session(r.range(5, 14), x);
    callbacks(40);
  }

  void gen_c14()
  {
    Strs ids = { "alpha", "beta", "%d apple", "alpha\n", "", "Alpha" }, ctxts = { "menu", "door", "" };
    // long ids and texts allocate, short ones don't
    ids.push_back(Str(40, 'x'));
    ids.push_back(r.pick(Strs(odd_ids, odd_ids + many(odd_ids))));
    ctxts.push_back(odd_contexts[r.below(many(odd_contexts))]);
    if (r.chance(1, 2))
    {
      ids.push_back(near(r.pick(ids)));
      ctxts.push_back(near(r.pick(ctxts)));
      if (r.chance(1, 2)) { ids = { ids.back(), ids[r.below(ids.size())], r.pick(ids) }; Str id = r.pick(ids); ids.push_back(near(id)); }
    }
    if (r.chance(1, 2)) { r.shuffle(ids); ids.resize(static_cast<size_t>(r.range(1, 3))); r.shuffle(ctxts); ctxts.resize(static_cast<size_t>(r.range(1, 2))); }
    int empties = r.chance(1, 4) ? 4 : 25;
    int n = r.range(4, 24);
    Strs dicts(1, "x");
    op("dict", {"x", "UTF-8"});
    if (r.chance(1, 4)) { op("dict", {"y", "UTF-8"}); dicts.push_back("y"); }
    if (r.chance(1, 2))
    {
      CatSpec c = plain_spec("h");
      op("parse", {"x", "mem/h.po", "1", join(c, blocks(c, entries(c, 0, 3, 0)))});
    }
    Strs pool;
    std::map<Str, Strs> last;   // what was said of a message last
    auto text = [&]
    {
      if (!pool.empty() && r.chance(1, 4)) return r.pick(pool);
      if (r.chance(1, empties)) return Str();
      Str t = "t" + tos(++serial);
      if (r.chance(1, 2)) t += Str(static_cast<size_t>(r.range(14, 60)), static_cast<char>('a' + r.below(26)));
      pool.push_back(t);
      return t;
    };
    for (int i = 0; i < n; ++i)
    {
      Str d = r.chance(3, 4) ? dicts[0] : r.pick(dicts);
      bool ctx = r.chance(1, 3);
      Str c = ctx ? r.pick(ctxts) : Str(), id = r.pick(ids);
      if (i > 2 && r.chance(1, 20)) { op("setpf", {d, tos(static_cast<long>(r.below(static_cast<uint64_t>(model::n_plural_rules))))}); continue; }
      if (dicts.size() > 1 && r.chance(1, 12)) { Op& o = op("fall", {"x", "y"}); if (r.chance(1, 6)) alloc_fault(o); continue; }
      Str about = d + (ctx ? "c" : "-") + c + "|" + id;
      Strs& before = last[about];
      if (r.chance(1, 2))
      {
        Str t = !before.empty() && r.chance(1, 3) ? r.pick(before) : text();
        Op& o = op("add1", {d, ctx ? "1" : "0", c, id, t});
        if (r.chance(2, 5)) alloc_fault(o);
        if (before.empty()) before.push_back(t); else before[0] = t;
      }
      else
      {
        Strs forms;
        for (int k = r.range(1, 4); k > 0; --k) forms.push_back(text());
        if (r.chance(1, 10)) for (int k = r.range(1, 5); k > 0; --k) forms.push_back(text());
        if (!before.empty() && r.chance(1, 2))
        {
          // much like before: a form more, a form less, one form changed, the forms in another order, the very same
          Strs f = before;
          switch (r.below(5))
          {
            case 0: f.push_back(text()); break;
            case 1: if (f.size() > 1) f.pop_back(); break;
            case 2: f[r.below(f.size())] = text(); break;
            case 3: r.shuffle(f); break;
            default: break;
          }
          forms = f;
        }
        Strs a = { d, ctx ? "1" : "0", c, id, id + "s" };
        a.insert(a.end(), forms.begin(), forms.end());
        Op& o = op("addn", a);
        if (r.chance(2, 5)) alloc_fault(o);
        before = forms;
      }
    }
  }

  void gen_c15()
  {
    int kind = static_cast<int>(r.below(6));
    if (kind == 0) { conversions(r.range(4, 14), 25); return; }
    if (kind == 1)
    {
      CatSpec c = rich_spec("c");
      Str bytes = join(c, blocks(c, entries(c, 1, 6, 10)));
      op("dict", {"x", r.chance(1, 2) ? "UTF-8" : "ISO-8859-1"});
      for (int i = r.range(1, 3); i > 0; --i)
      {
        Op& o = op("parse", {"x", "mem/de.po", "1", bytes});
        if (r.chance(1, 2)) alloc_fault(o);
        if (r.chance(1, 3)) fault(o, "read_err", {"mem/de.po", tos(static_cast<long>(interesting_offset(bytes)))});
      }
      return;
    }
    unix_fs = r.chance(1, 3);
    if (unix_fs) s.opt["fs"] = "unix";
    start_session(1, 3, 75);
    Mix x;
    x.rmdisk = r.chance(1, 4) ? 1 : 0;
    x.badcs = 15;
    x.delmgr = 1;
    if (r.chance(1, 2)) x.list = 20;
    if (r.chance(1, 2)) x.open = 20;
    if (r.chance(1, 2)) x.read = 25;
    if (r.chance(1, 3)) x.other = 15;
    if (r.chance(1, 3)) x.iconv = 20;
    if (r.chance(1, 2)) { x.alloc = 30; x.alloc_config = 15; }
    session(r.range(5, 14), x);
    if (r.chance(1, 3))
    {
      Strs a(1, "m");
      for (auto& q : requests) a.push_back(q);
      Op& o = op("cycle", a);
      request_faults(o, "m", requests[0], x);
      for (auto& f : o.faults) if (f.kind == "alloc") f.a.resize(1);
    }
    else if (r.chance(1, 3))
    {
      Strs a(1, "UTF-8");
      for (auto& d : disk) a.push_back(d.first);
      for (auto& q : requests) a.push_back(q);
      op("mcycle", a);
    }
  }

  // dictionaries put together by hand
  void chain()
  {
    int n = r.range(2, 4);
    for (int i = 0; i < n; ++i) op("dict", {"x" + tos(i), "UTF-8"});
    bool early = r.chance(1, 2);
    for (int pass = 0; pass < 2; ++pass)
    {
      if ((pass == 0) == early) for (int i = 0; i + 1 < n; ++i) op("fall", {"x" + tos(i), "x" + tos(i + 1)});
      else
        for (int i = 0; i < n; ++i)
        {
          if (r.chance(1, 8)) continue;
          CatSpec c = r.chance(1, 3) ? rich_spec("r" + tos(i)) : plain_spec("p" + tos(i));
          Str bytes = join(c, blocks(c, entries(c, 1, 7, 10)));
          if (i + 1 < n && r.chance(1, 4)) bytes = r.chance(1, 2) ? bytes.substr(0, interesting_offset(bytes)) : damage(bytes);
          op("parse", {"x" + tos(i), "mem/" + tos(i) + ".po", "1", bytes});
        }
    }
    for (int i = r.range(0, 5); i > 0; --i)
    {
      Str d = "x" + tos(r.range(0, n - 1)), id = r.pick(all_ids());
      bool ctx = r.chance(1, 3);
      if (r.chance(1, 2)) op("add1", {d, ctx ? "1" : "0", ctx ? "menu" : "", id, "added " + tos(i)});
      else op("addn", {d, ctx ? "1" : "0", ctx ? "menu" : "", id, id + "s", "one " + tos(i), r.chance(1, 3) ? Str() : "many " + tos(i)});
    }
  }

  void gen_c16()
  {
    if (r.chance(1, 6)) { chain(); return; }
    unix_fs = r.chance(1, 8);
    if (unix_fs) s.opt["fs"] = "unix";
    start_session(1, 3, 70);
    Str region, base;
    for (auto& q : requests) { if (q.find('_') != Str::npos) region = q; }
    // damage, tear or spoil the regional catalogues
    for (auto& d : disk)
      for (auto& f : family)
        if (f.find('_') != Str::npos && d.second.count(f) && r.chance(1, 3))
        {
          Str b = d.second[f];
          if (r.chance(1, 2)) b = b.substr(0, interesting_offset(b)); else b = damage(b);
          put(d.first, f, b);
        }
    Mix x;
    x.badcs = 10;
    x.charset = 2;
    if (r.chance(1, 2)) x.open = 25;
    if (r.chance(1, 2)) x.read = 25;
    if (r.chance(1, 4)) x.cut = 25;
    session(r.range(4, 12), x);
  }

  void gen_c17()
  {
    unix_fs = r.chance(1, 4);
    if (unix_fs) s.opt["fs"] = "unix";
    start_session(2, 4, 90);
    new_mgr("m");
    Strs dirs;
    for (auto& d : disk) dirs.push_back(d.first);
    r.shuffle(dirs);
    for (auto& d : dirs) add_dir("m", d, r.chance(1, 4));
    int n = r.range(2, 6);
    Mix x;
    for (int i = 0; i < n; ++i)
    {
      Str lang = r.pick(requests);
      Strs cand;
      for (auto& d : dirs) { Str f = choose(d, lang); if (!f.empty()) cand.push_back(d + "/" + f); }
      if (cand.empty()) continue;
      Str p = r.pick(cand), d = p.substr(0, p.rfind('/')), f = p.substr(p.rfind('/') + 1);
      Str how;
      switch (r.below(unix_fs ? 6 : 5))
      {
        case 0: how = "open"; break;
        case 1: how = "read"; break;
        case 2:
        {
          CatSpec c = plain_spec(d + "bad");
          c.header_charset = "NO-SUCH-CHARSET";
          std::vector<Ent> es = entries(c, 2, 6, 0);
          Strs b = blocks(c, es);
          if (b.size() > 2 && r.chance(1, 3)) std::swap(b[0], b[1 + r.below(b.size() - 1)]); // header comes late
          put(d, f, join(c, b));
          break;
        }
        case 3:
        {
          Str b = disk[d][f];
          if (b == subdir_mark) break;
          if (r.chance(2, 3)) { put(d, f, damage(b)); break; }
          // a wrong place in every entry, and many entries
          CatSpec c = plain_spec(d + "bad");
          Strs bs = blocks(c, entries(c, 1, 5, 0));
          for (int j = r.range(3, 40); j > 0; --j)
          {
            static const char* const wrong[] = { "msgid \"x\"\nmsgstr \"y\n\n", "msgid\n\n", "junk\n\n", "msgid \"a\"\nmsgid \"b\"\n\n", "msgstr \"only\"\n\n", "msgid \"a\" trailing\nmsgstr \"b\"\n\n" };
            bs.insert(bs.begin() + static_cast<long>(r.below(bs.size() + 1)), wrong[r.below(many(wrong))]);
          }
          put(d, f, join(c, bs));
          break;
        }
        case 4: { Str b; for (int j = r.range(1, 400); j > 0; --j) b += static_cast<char>(r.below(256)); put(d, f, b); break; }
        default: how = "dir"; if (!disk[d].count("zz_dir")) { Str nf = f; op("rm", {d, nf}); disk[d].erase(nf); put(d, nf, subdir_mark); } break;
      }
      op("setcharset", {"m", "UTF-8"});
      Op& o = op("getl", {"m", lang});
      if (how == "open") open_fault(o, p);
      if (how == "read" && disk[d][f] != subdir_mark) read_fault(o, p);
      order(o);
      if (r.chance(1, 3)) op("langs", {"m"});
    }
  }

  void gen_c18()
  {
    if (r.chance(1, 3)) { unix_fs = true; s.opt["fs"] = "unix"; }
    static const char* const names[] = { "de.po", "de_AT.po", "de_at.po", "pt_br.po", "pt_BR.po", "fr.po", "fr_CA.po", "en@quot.po", "en_US@piglatin.po", "sr@latin.po",
      "zh_TW.po", "zh_tw.po", "nds.po", "ast.po", "uz@cyrillic.po", "ca_ES@valencia.po", "de.UTF-8.po", "xx.po", "README", ".po", "de.po~", "de.pot", "po", "klingon.po",
      "de.po.bak", "q_QQ.po", "ja.po", "pl.po", "A.po", "_.po", "@.po",
      "german.po", "deutsch.po", "French.po", "spanish.po", "japanese.po", "fran\xc3\xa7" "ais.po", "DE.po", "De_AT.po", "de.PO", "de.Po", "deu.po", "english.po", "no_NO.po", "d.po", "dee.po" };
    int nd = r.range(1, 3);
    auto file = [&](const Str& d)
    {
      Str f = r.chance(1, 3) ? file_name(random_lang()) : Str(names[r.below(many(names))]);
      if (r.chance(1, 25)) f += r.chance(1, 2) ? "~" : ".po";
      bool real = r.chance(1, 5);
      put(d, f, real ? catalogue("l", 0, 2) : r.chance(1, 2) ? Str() : Str("junk\n"));
    };
    for (int i = 0; i < nd; ++i)
    {
      Str d = "d" + tos(i);
      op("mkdir", {d});
      disk[d];
      for (int j = r.range(0, 8); j > 0; --j) file(d);
    }
    Strs dirs;
    for (auto& d : disk) dirs.push_back(d.first);
    new_mgr("m");
    for (auto& d : dirs) if (r.chance(4, 5)) add_dir("m", d, r.chance(1, 3));
    requests = { "de", "de_AT", "pt_BR", "fr", "sr@latin", "zh_TW", random_lang().str() };
    int n = r.range(5, 16);
    bool faults = r.chance(1, 2);
    for (int i = 0; i < n; ++i)
      switch (r.below(8))
      {
        case 0: case 1: case 2:
        {
          Op& o = op("langs", {"m"});
          order(o);
          Strs ds;
          for (auto& d : mgrs["m"].dirs) if (disk.count(d)) ds.push_back(d);
          if (faults && !ds.empty() && r.chance(1, 4)) list_fault(o, r.pick(ds));
          if (faults && r.chance(1, 8)) alloc_fault(o);
          break;
        }
        case 3: file(r.pick(dirs)); break;
        case 4:
        {
          Str d = r.pick(dirs);
          if (disk[d].empty()) break;
          Strs fs;
          for (auto& f : disk[d]) fs.push_back(f.first);
          Str f = r.pick(fs);
          disk[d].erase(f);
          op("rm", {d, f});
          break;
        }
        case 5: op("getl", {"m", r.pick(requests)}); break;
        case 6: add_dir("m", r.pick(dirs), r.chance(1, 3)); break;
        default:
        {
          Str d = r.pick(dirs);
          op("rmdir", {"m", d});
          Strs& v = mgrs["m"].dirs;
          v.erase(std::remove(v.begin(), v.end(), d), v.end());
        }
      }
    op("langs", {"m"});
  }

  void gen_c19()
  {
    unix_fs = true;
    s.opt["fs"] = "unix";
    start_session(1, 2, 80);
    Strs dirs;
    for (auto& d : disk) dirs.push_back(d.first);
    // odd names, many entries, odd sizes
    static const char* const odd[] = { "a", "..x", ".hidden", "with space", "b.po", "-", "\xc3\xa9.po", "de.po.swp", "zzzz", "%41", "...", "\xff\xfe", "new\nline", "tab\t", "*", "back\\slash", "de.PO", "core",
      "#x#", "a.b.c.po", "$HOME", "~" };
    for (int i = r.range(0, 8); i > 0; --i) put(r.pick(dirs), odd[r.below(many(odd))], "x");
    if (r.chance(1, 8)) put("d0", Str(static_cast<size_t>(r.range(100, 255)), 'n'), "long name");
    if (r.chance(1, 4)) for (int i = r.chance(1, 6) ? (r.chance(1, 4) ? r.range(4000, 9000) : r.range(300, 1500)) : r.range(10, 60); i > 0; --i) put("d0", "f" + tos(i), "");
    if (r.chance(1, 3)) put("d0", "sub", subdir_mark);
    if (r.chance(1, 3)) put("d0", r.chance(1, 2) ? "link" : family[0], Str(link_mark) + (r.chance(1, 4) ? Str("nowhere") : disk["d0"].empty() ? Str("a") : disk["d0"].rbegin()->first));
    if (r.chance(1, 2))
    {
      Str b;
      static const int sizes[] = { 0, 1, 2, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 20000, 65536, 70001, 140000 };
      int n = sizes[r.below(many(sizes))];
      for (int i = 0; i < n; ++i) b += i % 61 == 60 ? '\n' : static_cast<char>(r.chance(1, 50) ? r.below(256) : static_cast<uint64_t>('a' + i % 23));
      put("d0", "big", b);
    }
    Mix x;
    x.list = 15; x.open = 15; x.read = 20; x.chunk = 30;
    int n = r.range(4, 12);
    bool mgr = r.chance(1, 2);
    if (mgr)
    {
      new_mgr("m");
      for (auto& d : dirs) add_dir("m", d, false);
    }
    for (int i = 0; i < n; ++i)
    {
      int k = static_cast<int>(r.below(mgr ? 10 : 7));
      Str d = r.pick(dirs);
      if (k < 3)
      {
        if (r.chance(1, 12)) { op("ulist", {"nowhere"}); continue; }
        Op& o = op("ulist", {d});
        order(o);
        if (r.chance(1, 3)) list_fault(o, d);
        if (r.chance(1, 8)) fault(o, "dt_unknown", {d});
        if (r.chance(1, 8)) alloc_fault(o);
      }
      else if (k < 7)
      {
        Strs fs;
        for (auto& f : disk[d]) fs.push_back(f.first);
        if (fs.empty()) continue;
        Str p = d + "/" + (r.chance(1, 15) ? Str("missing") : r.pick(fs));
        Op& o = op("uopen", {p, tos(r.range(0, 3))});
        if (r.chance(1, 4)) { fault(o, "chunk", {p, tos(r.range(0, 2)), tos(static_cast<long>(r.below(100000)))}); }
        if (r.chance(1, 4)) fault(o, "eintr", {p, tos(r.range(1, 3))});
        if (r.chance(1, 6)) open_fault(o, p);
        else if (r.chance(1, 4) && disk[d].count(p.substr(d.size() + 1))) read_fault(o, p);
      }
      else
      {
        Str lang = r.pick(requests);
        Op& o = op("getl", {"m", lang});
        request_faults(o, "m", lang, x);
        order(o);
        if (r.chance(1, 2)) op("setcharset", {"m", "UTF-8"});
      }
    }
  }

  // ------------------------------------------------------------ several threads
  void schedule(int threads)
  {
    s.opt["sched_seed"] = tos(static_cast<long>(r.below(1000000000)));
    switch (r.below(6))
    {
      case 0: // few switches at chosen places
        s.opt["policy"] = "priorities";
        s.opt["changes"] = tos(r.range(1, 3 + threads));
        break;
      case 1: s.opt["gap"] = tos(r.range(1, 6)); break;                      // nearly every access
      case 2: s.opt["gap"] = tos(r.range(10, 400)); s.opt["call"] = "10"; break;
      case 3: s.opt["gap"] = "0"; s.opt["call"] = tos(r.range(2, 60)); s.opt["sync"] = tos(r.range(5, 80)); break; // at calls only
      case 4: s.opt["gap"] = tos(r.range(1000, 20000)); s.opt["sync"] = "30"; break;
      default: s.opt["gap"] = tos(r.range(20, 3000)); s.opt["sync"] = tos(r.range(0, 50)); s.opt["call"] = tos(r.range(0, 20)); break;
    }
  }

  Str some_id(bool& ctx, Str& ctxt)
  {
    Strs ids = all_ids();
    ctx = r.chance(1, 3);
    ctxt = ctx ? Str(contexts[r.below(2)]) : Str();
    return r.chance(1, 6) ? "absent " + tos(r.range(0, 3)) : r.pick(ids);
  }

  void lookup_in(const Str& thread, const Str& d)
  {
    bool ctx;
    Str ctxt, id = some_id(ctx, ctxt);
    static const int ns[] = { 0, 1, 2, 3, 4, 5, 7, 11, 21, 22, 100, 101, -1 };
    if (id[0] == '%' ? r.chance(5, 6) : r.chance(1, 8)) op("lookp", {thread, d, ctx ? "1" : "0", ctxt, id, id + "s", tos(ns[r.below(sizeof ns / sizeof *ns)])});
    else op("look", {thread, d, ctx ? "1" : "0", ctxt, id});
  }

  Str small_catalogue(const Str& tag, int lo, int hi)
  {
    CatSpec c;
    if (r.chance(1, 6))
    {
      c = rich_spec(tag);
      std::vector<Ent> es = entries(c, lo, hi, 10);
      if (es.size() < 30) return join(c, blocks(c, es));
      c = CatSpec();
    }
    c.tag = tag;
    c.charset = latin_sets[r.below(many(latin_sets))];
    c.chars = words("é ü ß ñ ç");
    c.rule = static_cast<int>(r.below(static_cast<uint64_t>(model::n_plural_rules)));
    c.rich = r.chance(1, 6);
    return join(c, blocks(c, entries(c, lo, hi, 10)));
  }

  // dictionaries that fall back on one another; some have nothing to say, or only in some context
  void chain_of(const Str& T, Strs& dicts)
  {
    int n = r.range(2, 4);
    for (int i = 0; i < n; ++i)
    {
      Str d = "y" + tos(i);
      op("dict", {T, d, "UTF-8"});
      int k = static_cast<int>(r.below(4));
      if (k == 0) op("add1", {T, d, r.chance(1, 2) ? "1" : "0", contexts[r.below(2)], r.pick(all_ids()), "only " + d});
      else if (k > 1) op("parse", {T, d, "mem/y.po", "1", small_catalogue(d, 1, 6)});
    }
    for (int i = 0; i + 1 < n; ++i) op("fall", {T, "y" + tos(i), "y" + tos(i + 1)});
    if (r.chance(1, 2)) dicts.insert(dicts.begin(), "y0"); else dicts.push_back("y0");
    if (n > 2 && r.chance(1, 2)) dicts.push_back("y1");
  }

  void gen_c11()
  {
    int threads = r.chance(1, 2) ? 2 : r.range(2, 4);
    schedule(threads);
    Strs dicts;
    if (r.chance(2, 3))
    {
      bool base = r.chance(4, 5);
      Strs files = {"de.po", "de_AT.po", "pt_BR.po"};
      op("mkdir", {"d0"});
      op("mkdir", {"d1"});
      for (auto& f : files)
        for (auto d : {"d0", "d1"})
          if ((f == "de.po" && d == Str("d0")) ? base : r.chance(1, 2)) op("write", {d, f, small_catalogue(f.substr(0, f.size() - 3) + Str(d).substr(1), 2, 8)});
      op("mgr", {"s", "m", r.chance(1, 3) ? "ISO-8859-1" : "UTF-8"});
      op("adddir", {"s", "m", "d0", "0"});
      op("adddir", {"s", "m", "d1", "0"});
      Strs ls = {"de_AT", "de", "pt_BR", "pt"};
      for (int i = r.range(1, 3); i > 0; --i)
      {
        Str l = i == 1 && dicts.empty() ? Str("de_AT") : r.pick(ls);
        op("getl", {"s", "m", l, "h" + l});
        dicts.push_back("h" + l);
      }
    }
    if (dicts.empty() || r.chance(1, 3))
    {
      op("dict", {"s", "x", "UTF-8"});
      if (r.chance(5, 6)) op("parse", {"s", "x", "mem/x.po", "1", small_catalogue("x", 1, 9)});
      dicts.push_back("x");
    }
    if (r.chance(1, 4)) chain_of("s", dicts);
    int n = r.range(3, 14);
    for (int t = 0; t < threads; ++t)
      for (int i = 0; i < n; ++i)
      {
        Str d = dicts[r.chance(2, 3) ? 0 : r.below(dicts.size())];
        if (r.chance(1, 15)) op("each", {tos(t), d});
        else if (r.chance(1, 15)) op("charset", {tos(t), d});
        else
        {
          lookup_in(tos(t), d);
          if (r.chance(1, 25))
          {
            fault(s.ops.back(), "alloc", {"p" + tos(static_cast<long>(r.below(1000)))});
            op("fresh", {tos(t)}); // looking up changes nothing, not even when it fails
          }
        }
      }
  }

  void gen_c12()
  {
    int threads = r.chance(2, 3) ? 2 : r.range(2, 4);
    schedule(threads);
    Strs files;
    for (auto f : {"de.po", "de_AT.po", "fr.po", "pl.po", "ja.po"})
      if (r.chance(2, 3)) { files.push_back(f); op("write", {"d0", f, small_catalogue(Str(f).substr(0, 2) + "0", 1, 5)}); }
    op("mkdir", {"d0"});
    if (r.chance(1, 2)) op("write", {"d1", "de.po", small_catalogue("de1", 1, 5)});
    op("mkdir", {"d1"});
    if (r.chance(1, 4))
    { // not the first use in the process
      op("lang", {"s", "de_AT", "german"});
      op("pf", {"s", Str("Plural-Forms: ") + model::plural_rules[0].header});
    }
    static const char* const names[] = { "german", "french", "polish", "klingon", "bokmal", "deutsch" };
    static const char* const specs[] = { "de", "de_AT", "fr", "pl_PL", "pt_BR", "xx", "sr@latin", "german", "ja_JP", "C" };
    static const char* const sets[] = { "UTF-8", "ISO-8859-1", "ISO-8859-15", "KOI8-R", "UTF-16LE", "EUC-JP", "nonsense" };
    int same = static_cast<int>(r.below(4)); // all threads doing the same thing first meets on the same statics
    Str same_bytes = small_catalogue("same", 1, 4);
    bool disk_too = r.chance(1, 6);          // the real file system class; libstdc++'s directory iterator dies when memory runs out
    if (disk_too) s.opt["fs"] = "unix";
    int faulty = !disk_too && r.chance(1, 3) ? static_cast<int>(r.below(static_cast<uint64_t>(threads))) : -1;
    for (int t = 0; t < threads; ++t)
    {
      Str T = tos(t);
      int gen = 0;
      int n = r.range(1, 5);
      bool struck = false;
      for (int i = 0; i < n; ++i)
      {
        size_t first = s.ops.size();
        Str g = tos(++gen);
        int k = i == 0 && same ? same : static_cast<int>(r.below(6));
        if (k == 1) op("lang", {T, specs[r.below(sizeof specs / sizeof *specs)], names[r.below(6)]});
        else if (k == 2) op("pf", {T, Str("Plural-Forms: ") + model::plural_rules[r.below(static_cast<uint64_t>(model::n_plural_rules))].header});
        else if (k == 3 || k == 0)
        {
          Str d = "x" + g;
          op("dict", {T, d, r.chance(1, 3) ? "ISO-8859-1" : "UTF-8"});
          Str bytes = r.chance(1, 2) ? same_bytes : small_catalogue("t" + T + g, 1, 4);
          if (r.chance(1, 4)) bytes = damage(bytes);
          op("parse", {T, d, "mem/" + T + ".po", r.chance(3, 4) ? "1" : "0", bytes});
          if (r.chance(1, 6)) fault(s.ops.back(), "read_err", {"mem/" + T + ".po", tos(static_cast<long>(r.below(bytes.size() + 1)))});
          for (int j = r.range(0, 3); j > 0; --j) lookup_in(T, d);
          if (r.chance(1, 4)) op("add1", {T, d, "0", "", "alpha", "added by " + T});
          if (r.chance(1, 3)) op("each", {T, d});
        }
        else if (k == 5 && r.chance(1, 4) && gen < 9)
        {
          Strs ds;
          chain_of(T, ds);
          for (int j = r.range(1, 4); j > 0; --j) lookup_in(T, r.pick(ds));
        }
        else if (k == 4)
        {
          Str c = "c" + g;
          op("cnew", {T, c, sets[r.below(7)], sets[r.below(6)]});
          for (int j = r.range(1, 3); j > 0; --j) op("conv", {T, c, r.chance(1, 4) ? "caf\xe9" : "text of " + T + "." + g});
          if (r.chance(1, 2)) { op("cset", {T, c, sets[r.below(7)], sets[r.below(6)]}); op("conv", {T, c, "after"}); }
        }
        else
        {
          Str m = "m" + g;
          op("mgr", {T, m, r.chance(1, 3) ? "ISO-8859-1" : "UTF-8", disk_too && r.chance(3, 4) ? "unix" : "sim"});
          op("adddir", {T, m, "d0", "0"});
          if (r.chance(1, 2)) op("adddir", {T, m, "d1", r.chance(1, 2) ? "1" : "0"});
          if (r.chance(1, 4)) op("setfuzzy", {T, m, "0"});
          for (int j = r.range(1, 2); j > 0; --j)
          {
            static const char* const want[] = { "de", "de_AT", "fr", "pl", "ja", "pt" };
            Str l = want[r.below(6)], h = "h" + g + "." + tos(j);
            bool cur = r.chance(1, 3);
            if (cur) { op("setlang", {T, m, l}); op("get", {T, m, h}); }
            else op("getl", {T, m, l, h});
            if (t == faulty && r.chance(1, 3)) fault(s.ops.back(), "list_throw", {"d0"});
            if (t == faulty && r.chance(1, 3) && !files.empty()) fault(s.ops.back(), r.chance(1, 2) ? "open_throw" : "open_null", {"d0/" + r.pick(files)});
            for (int q = r.range(0, 2); q > 0; --q) lookup_in(T, h);
          }
          if (r.chance(1, 4)) op("langs", {T, m});
          if (r.chance(1, 3)) op("setcharset", {T, m, "UTF-8"});
          if (r.chance(1, 4)) op("delmgr", {T, m});
        }
        if (t == faulty && !struck && r.chance(1, 2))
        {
          Op& o = s.ops[first + r.below(s.ops.size() - first)];
          fault(o, "alloc", {"p" + tos(static_cast<long>(r.below(1000))), tos(r.chance(1, 4) ? r.range(2, 50) : 1)});
          struck = true;
        }
        else if (struck) { op("fresh", {T}); struck = false; }
      }
    }
  }

  void generate(const Str& p)
  {
    s.profile = p;
    if (p != "C10" && p != "C11" && p != "C12" && p != "C19") s.opt["counts"] = tos(static_cast<long>(1 + r.below(1000000000)));
    if (p == "C01") gen_c01();
    else if (p == "C02") gen_c02();
    else if (p == "C03") gen_c03();
    else if (p == "C04") gen_c04();
    else if (p == "C05") gen_c05();
    else if (p == "C06") gen_c06();
    else if (p == "C07") gen_c07();
    else if (p == "C08") gen_c08();
    else if (p == "C09") gen_c09();
    else if (p == "C10") gen_c10();
    else if (p == "C11") gen_c11();
    else if (p == "C12") gen_c12();
    else if (p == "C13") gen_c13();
    else if (p == "C14") gen_c14();
    else if (p == "C15") gen_c15();
    else if (p == "C16") gen_c16();
    else if (p == "C17") gen_c17();
    else if (p == "C18") gen_c18();
    else if (p == "C19") gen_c19();
    static const std::set<Str> sessions = { "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C15", "C16", "C17", "C18" };
    if (sessions.count(p) && r.chance(1, 2)) rename_directories();
  }

  // names that resemble each other
  void rename_directories()
  {
    static const char* const names[][4] = {
      { "po", "po2", "game/po", "game/po2" }, { "data.d", "data", "x/data", "dat" }, { "a b", "b", "\xc3\xa4/\xc3\xb6", "a" }, { "d", "D0", "0", "dd" },
      { "de", "de.po", "de_AT", "po" }, { "./data", "data2", "dat", "2" } };
    auto& to = names[r.below(many(names))];
    std::vector<size_t> which = { 0, 1, 2, 3 };
    r.shuffle(which);
    auto fix = [&](Str& t)
    {
      if (t.size() < 2 || t[0] != 'd' || t[1] < '0' || t[1] > '3' || (t.size() > 2 && t[2] != '/')) return;
      t = to[which[static_cast<size_t>(t[1] - '0')]] + t.substr(2);
    };
    for (auto& o : s.ops)
    {
      for (auto& t : o.a) fix(t);
      for (auto& f : o.faults) for (auto& t : f.a) fix(t);
    }
  }
};

} // namespace

Scenario generate(const Str& profile, uint64_t seed)
{
  Gen g(seed ^ fnv(profile));
  g.generate(profile);
  return g.s;
}

} // namespace sim
