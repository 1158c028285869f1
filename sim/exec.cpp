#include "exec.hpp"
#include "model.hpp"
#include "seams.hpp"
#include <algorithm>
#include <cstring>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>
#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"
#include "tinygettext/unix_file_system.hpp"

namespace tg = tinygettext;
using model::Key;
using model::Content;

namespace sim {

namespace {

struct MDict
{
  model::Dict d;
  MDict* base = nullptr;                // same dictionary as d.fallback
  Str lang;
  bool tainted = false;                 // a reported failure struck while it was filled: content is some of 'allowed'
  std::map<Key, std::set<Strs> > allowed;
};

struct Mgr
{
  tg::DictionaryManager* real = nullptr;
  Str charset = "UTF-8", cur;
  bool fuzzy = true;
  Strs dirs;
  std::map<Str, std::unique_ptr<MDict> > cache;
  std::map<Str, tg::Dictionary*> handed;
  Str load_state;                       // C05: the disk when the cache was begun
  std::map<Str, Str> answers;           // C13: what they said when they were handed out
  MDict empty;
};

struct Free { tg::Dictionary* real = nullptr; MDict m; Str charset; };
struct Cv { tg::IConv* real = nullptr; Str from, to; bool identity = true; };

Str show_forms(const Strs& v)
{
  Str r = "[";
  for (auto& s : v) r += (r.size() > 1 ? ", " : "") + show(s);
  return r + "]";
}

// What a call did
enum Outcome { ok, threw_std, threw_other };
Str name(Outcome o) { return o == ok ? "returned" : o == threw_std ? "threw a std::exception" : "threw"; }

Str last_what;
template<class F> Outcome guarded(F f)
{
  last_what.clear();
  try { Lib l; f(); return ok; }
  catch (std::exception& e) { Out o; last_what = e.what(); return threw_std; }
  catch (...) { return threw_other; }
}

tg::Language language(const Str& spec)
{
  model::Lang l = model::lang_of(spec);
  return tg::Language::from_spec(l.lang, l.country, l.modifier);
}

class Session
{
  const Scenario& sc;
  const Str& profile;
  Disk dsk;
  std::map<Str, Mgr> mgrs;
  std::map<Str, Free> frees;
  std::map<Str, Cv> convs;
  std::vector<Key> universe;
  std::vector<int> counts;                // the counts asked for
  bool use_model;          // compare with the reference model
  bool honour_cb;          // carry out 'cb' operations
  int index = -1;
  const Op* op = nullptr;
  std::map<Str, Str> remembered;  // C05: content by configuration

public:
  Strs trace;                              // one result per operation
  std::vector<std::vector<Msg> > messages; // what was delivered, per operation
  Strs printed;                            // and what was printed

  bool invert_pedantic = false; // of POParser::pedantic
  Session(const Scenario& s, bool m, bool cb) : sc(s), profile(s.profile), use_model(m), honour_cb(cb)
  {
    dsk.real = s.get("fs") == "unix";
    disk = &dsk;
    if (dsk.real)
    {
      // a place of its own for every session
      static int serial = 0;
      Str d = "session" + tos(++serial);
      if ((serial > 1 && ::chdir("..") != 0) || ::mkdir(d.c_str(), 0755) != 0 || ::chdir(d.c_str()) != 0) throw std::runtime_error("no scratch directory");
    }
    std::set<Key> u;
    auto add = [&](const Str& bytes)
    {
      if (bytes == subdir_mark || bytes.compare(0, strlen(link_mark), link_mark) == 0) return;
      for (auto& cs : {Str("UTF-8")})
      {
        model::Dict d;
        d.charset = cs;
        model::load(bytes, false, true, d);
        for (auto& k : d.own) u.insert(k.first);
      }
    };
    for (auto& o : s.ops)
    {
      if (o.name == "write" && o.a.size() > 2) add(o.a[2]);
      if (o.name == "parse" && o.a.size() > 3) add(o.a[3]);
      if ((o.name == "add1" || o.name == "addn") && o.a.size() > 3) u.insert(key(o.a[1], o.a[2], o.a[3]));
    }
    // the messages asked for: all, or a sample of many
    std::vector<std::pair<uint64_t, Key> > order;
    uint64_t salt = tou(s.get("counts", "0"));
    for (auto& k : u) order.push_back(std::make_pair(mix(fnv(model::show(k)) ^ salt), k));
    if (order.size() > 40) { std::sort(order.begin(), order.end()); order.resize(40); }
    for (auto& k : order) universe.push_back(k.second);
    for (int n : {0, 1, 2, 3, 5, 21, 100}) counts.push_back(n);
    if (salt)
    {
      Rng r(salt);
      for (int i = 0; i < 3; ++i) counts.push_back(r.range(4, 20));
      for (int i = 0; i < 3; ++i) counts.push_back(r.range(21, 130));
      counts.push_back(r.range(131, 1200));
      counts.push_back(static_cast<int>(r.below(2147483648u)));
      counts.push_back(static_cast<int>(1000000 * r.below(2000) + r.below(25)));
      counts.push_back(static_cast<int>(100 * r.below(20) + r.below(25)));
    }
    Key miss; miss.id = "no such message"; universe.push_back(miss);
    miss.has_ctxt = true; miss.ctxt = "no such context"; universe.push_back(miss);
    if (!u.empty()) { miss = *u.begin(); miss.has_ctxt = !miss.has_ctxt; miss.ctxt = miss.has_ctxt ? "menu" : ""; if (!u.count(miss)) universe.push_back(miss); }
    for (int l = 0; l < 3; ++l) install(l, cb_record);
    lookup_hook = nullptr;
    current = this;
    lookup_hook = &Session::hook;
  }
  static Session* current;
  static void hook() { if (current) current->reentrant_lookups(); }

  static Key key(const Str& has, const Str& ctxt, const Str& id)
  {
    Key k;
    k.has_ctxt = has == "1";
    if (k.has_ctxt) k.ctxt = ctxt;
    k.id = id;
    return k;
  }

  bool is(const char* p) const { return profile == p; }

  [[noreturn]] void bad(const Str& kind, const Str& msg) { violation(kind, "at operation " + tos(index) + " (" + (op ? op->name : Str()) + "): " + msg); }

  // ------------------------------------------------------------ lookups
  // text as the code under test returns it, copied into memory of the simulator
  static Str keep(const std::string& s) { Out o; return Str(s.data(), s.size()); }

  static Str ask(tg::Dictionary& d, const Key& k)
  {
    Lib l;
    return keep(k.has_ctxt ? d.translate_ctxt(k.ctxt, k.id) : d.translate(k.id));
  }
  static Str ask_plural(tg::Dictionary& d, const Key& k, int n)
  {
    Str p;
    { Out o; p = k.id + " (many)"; }
    Lib l;
    return keep(k.has_ctxt ? d.translate_ctxt_plural(k.ctxt, k.id, p, n) : d.translate_plural(k.id, p, n));
  }
  static Content content(tg::Dictionary& d)
  {
    Content c;
    auto put = [&c](bool has, const std::string& ctxt, const std::string& id, const std::vector<std::string>& v)
    {
      Out o;
      Key k;
      k.has_ctxt = has;
      k.ctxt = Str(ctxt.data(), ctxt.size());
      k.id = Str(id.data(), id.size());
      Strs copy;
      for (auto& s : v) copy.push_back(Str(s.data(), s.size()));
      if (!copy.empty()) c[k] = copy;
      else c[k]; // an entry without any text
    };
    Lib l;
    d.foreach([&](const std::string& id, const std::vector<std::string>& v) { put(false, std::string(), id, v); });
    d.foreach_ctxt([&](const std::string& ctxt, const std::string& id, const std::vector<std::string>& v) { put(true, ctxt, id, v); });
    return c;
  }

  static Str show_content(tg::Dictionary& d)
  {
    Str r;
    for (auto& e : content(d)) r += model::show(e.first) + "=" + show_forms(e.second) + ";";
    return r;
  }
  Str digest(tg::Dictionary& d)
  {
    Str r = show_content(d);
    size_t turn = 0;
    for (auto& k : universe)
    {
      ++turn;
      r += model::show(k) + "->" + show(ask(d, k));
      for (int n : {1, 2, counts[turn % counts.size()], counts[(turn * 5 + 3) % counts.size()]}) r += "|" + show(ask_plural(d, k, n));
      r += ";";
    }
    return r;
  }

  void check_content(const Str& who, tg::Dictionary& d, const MDict& m)
  {
    Content c = content(d);
    if (m.tainted)
    {
      for (auto& e : c)
      {
        auto a = m.allowed.find(e.first);
        if (a == m.allowed.end())
        {
          if (e.second.empty()) continue;
          bad("phantom", who + " has a message no catalogue provides: " + model::show(e.first) + " = " + show_forms(e.second));
        }
        if (!e.second.empty() && !a->second.count(e.second))
          bad("torn-text", who + " serves " + model::show(e.first) + " as " + show_forms(e.second) + ", which no catalogue says");
      }
      return;
    }
    for (auto& e : m.d.own)
    {
      auto i = c.find(e.first);
      if (i == c.end()) bad("lost", who + " lacks " + model::show(e.first) + ", expected " + show_forms(e.second));
      if (i->second != e.second)
        bad("wrong-text", who + " has " + model::show(e.first) + " = " + show_forms(i->second) + ", expected " + show_forms(e.second));
    }
    for (auto& e : c)
      if (!m.d.own.count(e.first))
        bad("phantom", who + " has a message it should not have: " + model::show(e.first) + " = " + show_forms(e.second));
  }

  static bool among(const Strs& v, const Str& s) { return std::find(v.begin(), v.end(), s) != v.end(); }

  bool tainted(const MDict& m) const { return m.tainted || (m.base && tainted(*m.base)); }

  // the answers allowed; the first is the expected one
  Strs wanted(const MDict& m, const Key& k) const
  {
    Strs want = m.d.lookup(k);
    if (!tainted(m)) return want;
    want.push_back(k.id);
    for (const MDict* x = &m; x; x = x->base)
    {
      auto a = x->allowed.find(k);
      if (a != x->allowed.end()) for (auto& v : a->second) if (!v.empty()) want.push_back(v[0]);
      if (x->d.has(k)) want.push_back(x->d.own.at(k)[0]);
    }
    return want;
  }
  Strs wanted_plural(const MDict& m, const Key& k, int n) const
  {
    Strs want = m.d.lookup_plural(k, k.id + " (many)", n);
    if (!tainted(m)) return want;
    want.push_back(n == 1 ? k.id : k.id + " (many)");
    for (const MDict* x = &m; x; x = x->base)
    {
      auto a = x->allowed.find(k);
      if (a != x->allowed.end()) for (auto& v : a->second) for (auto& f : v) want.push_back(f);
      if (x->d.has(k)) for (auto& f : x->d.own.at(k)) want.push_back(f);
    }
    return want;
  }

  void check_lookups(const Str& who, tg::Dictionary& d, const MDict& m)
  {
    bool relaxed = tainted(m);
    if (!relaxed)
    {
      // the rule that chooses among plural forms
      tg::PluralForms pf = d.get_plural_forms();
      if (static_cast<bool>(pf) != (m.d.rule >= 0)) bad("wrong-plural", who + (pf ? " has a plural rule no header gave it" : " lacks the plural rule its header gave it"));
      if (pf)
      {
        if (pf.get_nplural() != model::plural_rules[m.d.rule].n) bad("wrong-plural", who + " has a plural rule with " + tos(static_cast<long>(pf.get_nplural())) + " forms");
        for (int n : counts)
          if (pf.get_plural(n) != model::eval_rule(m.d.rule, n))
            bad("wrong-plural", who + " takes form " + tos(static_cast<long>(pf.get_plural(n))) + " for " + tos(n) + ", its rule gives " + tos(static_cast<long>(model::eval_rule(m.d.rule, n))));
      }
      Str cs = keep(d.get_charset());
      if (cs != m.d.charset) bad("wrong-charset", who + " says its charset is " + show(cs));
    }
    size_t turn = 0;
    for (auto& k : universe)
    {
      ++turn;
      Str got = ask(d, k);
      Strs want = wanted(m, k);
      if (!among(want, got))
        bad("wrong-answer", who + " translates " + model::show(k) + " as " + show(got) + ", expected " + show(want[0]));
      for (int n : {1, 2, counts[turn % counts.size()], counts[(turn * 5 + 3) % counts.size()]})
      {
        Str gotp = ask_plural(d, k, n);
        Strs wantp = wanted_plural(m, k, n);
        if (!among(wantp, gotp))
          bad("wrong-answer", who + " translates " + tos(n) + " of " + model::show(k) + " as " + show(gotp) + ", expected " + show(wantp[0]));
      }
    }
  }

  void check(const Str& who, tg::Dictionary& d, const MDict& m)
  {
    check_content(who, d, m);
    check_lookups(who, d, m);
    count("dictionary_checks");
  }

  // Every dictionary handed out and still valid: its content after each operation; lookups for one of them in turn, and
  // for all of them at the end.
  void verify_all()
  {
    if (!use_model) return;
    size_t nmsgs = msgs.size();
    ctl.steps = 0;
    ctl.step_limit = 500000000;
    std::vector<std::pair<Str, std::pair<tg::Dictionary*, const MDict*> > > all;
    for (auto& m : mgrs)
      for (auto& h : m.second.handed)
      {
        auto c = m.second.cache.find(h.first);
        if (c == m.second.cache.end()) continue;
        all.push_back(std::make_pair("dictionary " + h.first + " of manager " + m.first, std::make_pair(h.second, c->second.get())));
      }
    for (auto& f : frees) all.push_back(std::make_pair("dictionary " + f.first, std::make_pair(f.second.real, &f.second.m)));
    bool last = static_cast<size_t>(index) + 1 >= sc.ops.size();
    for (size_t i = 0; i < all.size(); ++i)
    {
      check_content(all[i].first, *all[i].second.first, *all[i].second.second);
      if (last || i == static_cast<size_t>(index) % all.size()) check_lookups(all[i].first, *all[i].second.first, *all[i].second.second);
      count("dictionary_checks");
    }
    res->peak = std::max(res->peak, ctl.steps * 1000 / ctl.step_limit);
    ctl.step_limit = 0;
    msgs.resize(std::min(msgs.size(), nmsgs));
  }

  Str some_answers(tg::Dictionary& d)
  {
    Str r;
    for (size_t i = 0; i < universe.size() && i < 5; ++i)
    {
      r += show(ask(d, universe[i])) + ",";
      for (int n : {1, 2, 5}) r += show(ask_plural(d, universe[i], n)) + ",";
    }
    return r;
  }

  // Done by a log callback: look things up in every dictionary already handed out
  int reentrant_op = -1, reentrant_left = 0;
  void reentrant_lookups()
  {
    // a load may issue thousands of diagnostics: look up at the first ones only
    if (reentrant_op != index) { reentrant_op = index; reentrant_left = 60; }
    if (reentrant_left <= 0) return;
    for (auto& m : mgrs)
      for (auto& h : m.second.handed)
      {
        auto c = m.second.answers.find(h.first);
        if (c == m.second.answers.end()) continue;
        Str got = some_answers(*h.second);
        if (got != c->second)
          bad("wrong-answer", "inside a log callback dictionary " + h.first + " answers " + got + ", when it was handed out it said " + c->second);
        count("probe.reentrant_lookups");
        --reentrant_left;
      }
  }

  // --------------------------------------------------------------- managers
  struct Expect
  {
    Strs must_report;     // paths whose failure has to be visible
    Strs opens;           // catalogues a load reads
    bool may_throw = false;
  };

  Str choose(const Dir& dir, const Str& lang)
  {
    Str best;
    int best_score = 0;
    for (auto& f : dir)
    {
      if (!model::is_catalogue(f.first)) continue;
      model::Lang l = model::lang_of_file(f.first);
      if (!l.defined()) continue;
      int s = model::score(model::lang_of(lang), l);
      if (s > best_score) { best_score = s; best = f.first; }
    }
    return best;
  }

  // What a load made now gives, in view of the faults that struck
  std::unique_ptr<MDict> model_load(Mgr& m, const Str& lang, Expect& e)
  {
    std::unique_ptr<MDict> r(new MDict);
    r->lang = lang;
    r->d.charset = m.charset;
    for (auto p = m.dirs.rbegin(); p != m.dirs.rend(); ++p)
    {
      bool failed = false;
      for (auto k : {"list_throw", "list_other", "list_missing", "list_errno", "readdir_err", "fdopendir_err"})
        if (plan.did(k, *p)) failed = true;
      if (failed) { e.must_report.push_back(*p); e.may_throw = true; continue; }
      auto d = dsk.dirs.find(*p);
      if (d == dsk.dirs.end()) continue;
      Str f = choose(d->second, lang);
      if (f.empty()) continue;
      Str path = *p + "/" + f;
      e.opens.push_back(path);
      bool noopen = false;
      for (auto k : {"open_null", "open_throw", "open_bad", "open_missing", "open_errno", "open_other"})
        if (plan.did(k, path)) noopen = true;
      if (plan.did("open_other", path)) e.may_throw = true;
      if (noopen) { e.must_report.push_back(path); continue; }
      const Str* file = dsk.file(path);
      if (!file) { e.must_report.push_back(path); continue; } // a link to nowhere
      Str bytes = *file;
      bool err = false;
      if (plan.did("read_cut", path)) bytes.resize(static_cast<size_t>(toi(plan.find("read_cut", path)->a[1])));
      if (bytes == subdir_mark) bytes.clear();
      if (plan.did("read_err", path))
      {
        const Fault* flt = plan.find("read_err", path);
        bytes.resize(std::min(bytes.size(), flt ? static_cast<size_t>(toi(flt->a[1])) : 0));
        err = true;
      }
      model::deny_conversions = plan.did("iconv_open", "*");
      model::ParseResult pr = model::load(bytes, err, m.fuzzy, r->d);
      model::deny_conversions = false;
      for (auto& v : pr.versions) r->allowed[v.first].insert(v.second);
      if (pr.read_error || pr.bad_charset) e.must_report.push_back(path);
      if (pr.read_error) count("probe.read_error_noticed");
      if (pr.bad_charset) count("probe.bad_charset");
      if (pr.errors) count("probe.malformed_place");
    }
    model::Lang l = model::lang_of(lang);
    if (!l.country.empty())
    {
      auto b = m.cache.find(l.lang);
      if (b == m.cache.end()) b = m.cache.insert(std::make_pair(l.lang, model_load(m, l.lang, e))).first;
      r->base = b->second.get();
      r->d.fallback = &b->second->d;
    }
    if (ctl.failed && any_error_logged()) r->tainted = true;
    if (ctl.failed > 1) r->tainted = true; // reporting may have run out of memory as well
    return r;
  }

  void drop(Mgr& m) { m.cache.clear(); m.handed.clear(); m.answers.clear(); }

  bool fault_struck() const { return plan.fired_any() || ctl.failed; }
  bool list_fault_struck() const
  {
    for (auto k : {"list_throw", "list_other", "list_missing", "list_errno", "readdir_err", "fdopendir_err", "open_other"})
      if (plan.did_kind(k)) return true;
    return false;
  }

  void check_reported(const Expect& e)
  {
    for (auto& p : e.must_report)
    {
      count("probe.must_report");
      if (!error_logged(p)) bad("unreported", "a failure concerning " + show(p) + " was neither thrown nor logged as an error");
    }
  }

  // a request for a dictionary: lang "" stands for get_dictionary()
  void get(const Str& mname, Mgr& m, const Str& lang, bool current_lang)
  {
    tg::Dictionary* d = nullptr;
    Str target = current_lang ? m.cur : lang;
    bool cached = m.cache.count(target) != 0;
    Outcome o = guarded([&] { d = current_lang ? &m.real->get_dictionary() : &m.real->get_dictionary(language(lang)); });
    // nothing else may fail in this operation
    uint64_t failed = ctl.failed;
    ctl.fail_from = 0;
    if (is("C15"))
    {
      if (live_streams) bad("open-stream", tos(live_streams) + " stream(s) still open after the request " + name(o));
      if (open_handles()) bad("open-stream", "still open after the request " + name(o) + ":" + open_handle_names());
    }
    trace.push_back(o != ok ? name(o) : use_model ? show_content(*d) : digest(*d));
    if (!use_model)
    {
      if (o == ok && d && !target.empty())
      {
        remember(mname, m, target, trace.back());
        m.handed[target] = d;
        m.answers[target] = some_answers(*d);
      }
      return;
    }
    ctl.failed = failed;
    if (target.empty())
    {
      if (o != ok) bad("unexpected-exception", "no language is set, yet the request " + name(o) + ": " + last_what);
      check("the empty dictionary", *d, m.empty);
      return;
    }
    if (o != ok)
    {
      count("probe.request_threw");
      if (!fault_struck() && !cached)
      {
        Expect e;
        model_load(m, target, e);
        if (!(is("C04") && !e.must_report.empty())) bad("unexpected-exception", "the request " + name(o) + " (" + last_what + ") although nothing failed");
        drop_unfinished(m, target);
        return;
      }
      if (cached) { if (!ctl.failed) bad("unexpected-exception", "request for a dictionary already loaded " + name(o) + ": " + last_what); }
      else if ((is("C16") || is("C17")) && !list_fault_struck() && !ctl.failed)
        bad("unexpected-exception", "the request " + name(o) + " (" + last_what + ") where only one catalogue was bad");
      return; // no trace: the model is left as it is
    }
    Expect e;
    if (!cached)
    {
      std::unique_ptr<MDict> md = model_load(m, target, e);
      m.cache[target] = std::move(md);
      count("loads");
      if (ctl.failed) count(tainted(*m.cache[target]) ? "probe.load_survived_alloc_failure_reported" : "probe.load_survived_alloc_failure");
    }
    if (is("C04") || is("C19")) check_reported(e);
    if (is("C08"))
    {
      auto h = m.handed.find(target);
      if (h != m.handed.end() && h->second != d) bad("moved", "the dictionary for " + target + " is a different object now although the configuration did not change");
      Strs opens = plan.opened, may = e.opens;
      std::sort(may.begin(), may.end());
      std::sort(opens.begin(), opens.end());
      if (!std::includes(may.begin(), may.end(), opens.begin(), opens.end()))
        bad("reread", "the request opened " + show_forms(opens) + " although only " + show_forms(may) + " had to be read");
    }
    m.handed[target] = d;
    MDict& md = *m.cache[target];
    check("dictionary " + target + " of manager " + mname, *d, md);
    if (is("C16")) check_fallback(mname, m, target, *d);
  }

  void drop_unfinished(Mgr& m, const Str& target)
  {
    // model_load() may have put the base language into the cache
    model::Lang l = model::lang_of(target);
    if (!l.country.empty() && !m.handed.count(l.lang)) m.cache.erase(l.lang);
  }

  // C16, real code against real code
  void check_fallback(const Str& mname, Mgr& m, const Str& target, tg::Dictionary& d)
  {
    model::Lang l = model::lang_of(target);
    if (l.country.empty()) return;
    Content own = content(d);
    tg::Dictionary* b = nullptr;
    if (guarded([&] { b = &m.real->get_dictionary(language(l.lang)); }) != ok)
      bad("unexpected-exception", "asking for the base dictionary of " + target + " failed: " + last_what);
    (void)mname;
    for (auto& k : universe)
    {
      auto o = own.find(k);
      bool has = o != own.end() && !o->second.empty();
      Str got = ask(d, k), base = ask(*b, k);
      if (!has && got != base)
        bad("no-fallback", target + " translates " + model::show(k) + " as " + show(got) + " but its base language as " + show(base));
      if (has && !o->second[0].empty() && got != o->second[0])
        bad("overridden", target + " translates " + model::show(k) + " as " + show(got) + " although its own catalogue says " + show_forms(o->second));
      count("probe.fallback_compared");
      for (int n : counts)
      {
        Str gp = ask_plural(d, k, n), bp = ask_plural(*b, k, n);
        if (!has && gp != bp)
          bad("no-fallback", target + " translates " + tos(n) + " of " + model::show(k) + " as " + show(gp) + " but its base language as " + show(bp));
      }
    }
    m.handed[l.lang] = b;
  }

  // C05: the same files and configuration have to give the same content
  void remember(const Str& mname, Mgr& m, const Str& target, const Str& c)
  {
    if (!is("C05")) return;
    Str state;
    for (auto& x : dsk.dirs) { state += x.first + "{"; for (auto& f : x.second) state += f.first + "=" + f.second + ","; state += "}"; }
    if (m.handed.empty()) m.load_state = state;
    if (m.load_state != state) return; // may have been read before the files changed
    Str k = mname + "|" + target + "|" + m.charset + "|" + (m.fuzzy ? "1" : "0");
    for (auto& p : m.dirs) k += "|" + p;
    k += "|" + tos(static_cast<long>(fnv(state)));
    auto i = remembered.find(k);
    if (i == remembered.end()) remembered[k] = c;
    else if (i->second != c)
      bad("order-dependent", "dictionary " + target + " differs from the one served earlier for the same files: " + first_difference(i->second, c));
    else count("probe.same_again");
  }

  static Str first_difference(const Str& a, const Str& b)
  {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t s = i > 40 ? i - 40 : 0;
    return "..." + a.substr(s, 100) + "... against ..." + b.substr(s, 100) + "...";
  }

  // config call that may be refused for lack of memory only
  bool config(Outcome o)
  {
    if (o == ok) return true;
    if (!ctl.failed) bad("unexpected-exception", "the call " + name(o) + ": " + last_what);
    count("probe.config_threw");
    return false;
  }

  // --------------------------------------------------------------- operations
  void run()
  {
    tg::POParser::pedantic = !invert_pedantic;
    for (size_t i = 0; i < sc.ops.size(); ++i)
    {
      index = static_cast<int>(i);
      op = &sc.ops[i];
      uint64_t in = 0;
      for (auto& a : op->a) in += a.size();
      for (auto& d : dsk.dirs) for (auto& f : d.second) in += f.second.size() + f.first.size();
      begin_op(index, *op, in * 4);
      size_t before = trace.size();
      step();
      Str now_printed = printed_text ? *printed_text : Str();
      end_op();
      if (trace.size() == before) trace.push_back("-");
      Str last = trace.back();
      trace.resize(before);
      trace.push_back(last);
      event("result " + tos(static_cast<long>(fnv(last))));
      messages.push_back(msgs);
      printed.push_back(now_printed);
      count(("op." + op->name).c_str());
      plan.faults = nullptr;
      ctl.failed = 0;
      verify_all();
    }
    index = static_cast<int>(sc.ops.size());
    op = nullptr;
    finish();
  }

  void finish()
  {
    static const Op none = Op();
    begin_op(index, none, 0);
    ctl.step_limit = 0;
    for (auto& m : mgrs) { Lib l; delete m.second.real; }
    mgrs.clear();
    for (auto& f : frees) { Lib l; delete f.second.real; }
    frees.clear();
    for (auto& c : convs) { Lib l; delete c.second.real; }
    convs.clear();
    if (is("C15") || is("C10"))
    {
      if (live_cds()) violation("leak", tos(live_cds()) + " conversion descriptor(s) never closed");
    }
    if (is("C15"))
    {
      if (live_streams) violation("leak", tos(live_streams) + " stream(s) never closed");
      if (open_handles()) violation("leak", "files or directories never closed:" + open_handle_names());
      Str lost = unreachable_blocks();
      if (!lost.empty()) violation("leak", "memory nothing refers to any more after all objects are gone: " + lost);
      count("probe.leak_checked");
    }
    plan.faults = nullptr;
    current = nullptr;
  }

  const Str& arg(size_t i) const { static const Str none; return i < op->a.size() ? op->a[i] : none; }

  void step()
  {
    const Str& n = op->name;
    if (n == "mkdir") dsk.mkdir(arg(0));
    else if (n == "rmdisk") dsk.rmdir(arg(0));
    else if (n == "write") write(arg(0), arg(1), arg(2));
    else if (n == "rm") remove(arg(0), arg(1));
    else if (n == "mgr") new_manager();
    else if (n == "dict") new_dictionary();
    else if (n == "cnew" || n == "cset" || n == "conv" || n == "cdel") conversion();
    else if (n == "parse" || n == "add1" || n == "addn" || n == "deldict" || n == "look" || n == "fall" || n == "setpf") dictionary();
    else if (n == "ask") single_lookup();
    else if (n == "tables") tables();
    else if (n == "ulist") unix_list();
    else if (n == "uopen") unix_open();
    else if (n == "pedantic") tg::POParser::pedantic = (toi(arg(0)) != 0) != invert_pedantic;
    else if (n == "cb") { if (honour_cb) install(static_cast<int>(toi(arg(0))), static_cast<CbKind>(toi(arg(1)))); }
    else if (n == "probe") probe();
    else if (n == "mcycle") manager_cycle();
    else if (mgrs.count(arg(0))) manager_op(arg(0), mgrs[arg(0)]);
  }

  void write(const Str& d, const Str& f, const Str& bytes)
  {
    auto i = dsk.dirs.find(d);
    if (i != dsk.dirs.end() && i->second.count(f) && (i->second[f] == subdir_mark || bytes == subdir_mark)) return;
    if (bytes == subdir_mark && dsk.real)
    {
      dsk.mkdir(d);
      dsk.dirs[d][f] = bytes;
      std::unique_ptr<Disk> sub(new Disk);
      sub->real = true;
      sub->dirs[d];
      sub->mkdir(d + "/" + f);
    }
    else dsk.write(d, f, bytes);
  }
  void remove(const Str& d, const Str& f)
  {
    auto i = dsk.dirs.find(d);
    if (i != dsk.dirs.end() && i->second.count(f) && i->second[f] == subdir_mark) return;
    dsk.rm(d, f);
  }

  void new_manager()
  {
    if (mgrs.count(arg(0))) return;
    tg::DictionaryManager* r = nullptr;
    Str cs = arg(1);
    bool real_fs = dsk.real;
    Outcome o = guarded([&]
    {
      if (real_fs) r = new tg::DictionaryManager(cs);
      else
      {
        std::unique_ptr<tg::FileSystem> fs;
        { Out q; fs.reset(new SimFS); }
        r = new tg::DictionaryManager(std::move(fs), cs);
      }
    });
    if (!config(o)) return;
    Mgr& m = mgrs[arg(0)];
    m.real = r;
    m.charset = cs;
  }

  void manager_op(const Str& mname, Mgr& m)
  {
    const Str& n = op->name;
    if (n == "delmgr")
    {
      guarded([&] { delete m.real; });
      mgrs.erase(mname);
    }
    else if (n == "adddir")
    {
      bool known = std::find(m.dirs.begin(), m.dirs.end(), arg(1)) != m.dirs.end();
      bool first = arg(2) == "1";
      if (!config(guarded([&] { m.real->add_directory(arg(1), first); }))) return;
      if (known) return;
      if (first) m.dirs.insert(m.dirs.begin(), arg(1)); else m.dirs.push_back(arg(1));
      drop(m);
    }
    else if (n == "rmdir")
    {
      if (!config(guarded([&] { m.real->remove_directory(arg(1)); }))) return;
      auto i = std::find(m.dirs.begin(), m.dirs.end(), arg(1));
      if (i == m.dirs.end()) return;
      m.dirs.erase(i);
      drop(m);
    }
    else if (n == "setlang")
    {
      if (!config(guarded([&] { m.real->set_language(arg(1).empty() ? tg::Language() : language(arg(1))); }))) return;
      m.cur = arg(1);
      Str got;
      guarded([&] { got = keep(m.real->get_language().str()); });
      if (use_model && !m.cur.empty() && !ctl.failed && got != m.cur) bad("wrong-language", "get_language() says " + show(got) + " after set_language(" + m.cur + ")");
    }
    else if (n == "setcharset")
    {
      if (!config(guarded([&] { m.real->set_charset(arg(1)); }))) return;
      m.charset = arg(1);
      drop(m);
    }
    else if (n == "setfuzzy")
    {
      if (!config(guarded([&] { m.real->set_use_fuzzy(arg(1) == "1"); }))) return;
      m.fuzzy = arg(1) == "1";
      drop(m);
      bool got = false;
      guarded([&] { got = m.real->get_use_fuzzy(); });
      if (got != m.fuzzy) bad("wrong-setting", "get_use_fuzzy() does not return what was set");
    }
    else if (n == "get") get(mname, m, "", true);
    else if (n == "getl") get(mname, m, arg(1), false);
    else if (n == "langs") languages(m);
    else if (n == "cycle") cycle(m);
  }

  void languages(Mgr& m)
  {
    std::set<Str> got;
    bool undefined = false;
    Outcome o = guarded([&]
    {
      std::set<tg::Language> s = m.real->get_languages();
      Out q;
      ctl.fail_from = 0;
      for (auto& l : s)
      {
        if (!l) { undefined = true; continue; }
        Lib i;
        got.insert(keep(l.str()));
      }
    });
    Str t;
    for (auto& s : got) t += s + ",";
    trace.push_back(o == ok ? t + (undefined ? "undefined" : "") : name(o));
    if (is("C15") && open_handles()) bad("open-stream", "still open after listing the languages:" + open_handle_names());
    if (is("C08") && !plan.opened.empty()) bad("reread", "listing the languages opened " + plan.opened[0]);
    if (!use_model) return;
    if (o != ok)
    {
      if (!fault_struck()) bad("unexpected-exception", "get_languages() " + name(o) + ": " + last_what);
      count("probe.languages_threw");
      return;
    }
    if (undefined) bad("undefined-language", "get_languages() lists an undefined language");
    std::set<Str> want;
    for (auto& p : m.dirs)
    {
      bool failed = false;
      for (auto k : {"list_throw", "list_other", "list_missing", "list_errno", "readdir_err", "fdopendir_err"})
        if (plan.did(k, p)) failed = true;
      if (failed)
      {
        if (!error_logged(p)) bad("unreported", "listing " + show(p) + " failed, but get_languages() reports nothing");
        continue;
      }
      auto d = dsk.dirs.find(p);
      if (d == dsk.dirs.end()) continue;
      for (auto& f : d->second)
      {
        if (!model::is_catalogue(f.first)) continue;
        model::Lang l = model::lang_of_file(f.first);
        if (l.defined()) want.insert(l.str());
      }
    }
    if (got != want)
    {
      Str w;
      for (auto& s : want) w += s + ",";
      bad("wrong-languages", "get_languages() gives " + show(t) + ", the directories hold " + show(w));
    }
    count("probe.languages_compared");
  }

  static Str single_shifts(Str x)
  {
    for (size_t i = 0; i < x.size();)
    {
      size_t n = x[i] == '\x0e' || x[i] == '\x0f' ? 1 : x[i] != '\x1b' || i + 1 >= x.size() ? 0 : x[i + 1] == '$' ? 4 : 2;
      if (n && i + 2 * n <= x.size() && x.compare(i, n, x, i + n, n) == 0) x.erase(i, n);
      else ++i;
    }
    return x;
  }

  // What round number 'i' of a cycle meets that no other round does. All rounds' things have the same length, so that
  // only what is kept for longer than its round makes the memory held grow.
  std::map<Str, Dir> as_found;
  Str novel;
  void novelties(int i)
  {
    Str old = novel;
    Str t = tos(i + 1000);
    novel = "Q" + t.substr(t.size() - 3);
    if (old.empty()) as_found = dsk.dirs;
    for (auto& d : as_found)
    {
      for (auto& f : { Str("de_"), Str("ja@"), Str("novel") })
      {
        if (!old.empty() && !d.second.count(f + old + ".po")) dsk.rm(d.first, f + old + ".po");
        if (!d.second.count(f + novel + ".po"))
          dsk.write(d.first, f + novel + ".po", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"a " + novel + "\"\nmsgstr \"b " + novel + "\"\n");
      }
      for (auto& f : d.second)
        if (model::is_catalogue(f.first) && f.second != subdir_mark && f.second.compare(0, strlen(link_mark), link_mark) != 0)
          dsk.write(d.first, f.first, f.second + "\n\nmsgid \"a " + novel + "\"\nmsgstr \"c " + novel + "\"\n\nmsgctxt \"" + novel + "\"\nmsgid \"a\"\nmsgstr \"d\"\n\nmsgid \"\nwrong " + novel + "\n");
    }
  }
  void back_as_found()
  {
    if (novel.empty()) return;
    for (auto& d : as_found)
    {
      for (auto& f : { Str("de_"), Str("ja@"), Str("novel") })
        if (!d.second.count(f + novel + ".po")) dsk.rm(d.first, f + novel + ".po");
      for (auto& f : d.second)
        if (model::is_catalogue(f.first) && f.second != subdir_mark && f.second.compare(0, strlen(link_mark), link_mark) != 0) dsk.write(d.first, f.first, f.second);
    }
    novel.clear();
  }
  void novel_lookups(tg::Dictionary& d, int i)
  {
    const Str a = "a " + novel, b = "missing " + novel;
    for (auto& id : { a, b })
    {
      guarded([&] { d.translate(id); });
      guarded([&] { d.translate_ctxt(novel, id); });
      guarded([&] { d.translate_plural(id, id + "s", i); });
      guarded([&] { d.translate_ctxt_plural(novel, id, id + "s", i); });
    }
  }
  void novel_values(int i)
  {
    guarded([&] { tg::Language::from_name("de_" + novel); });
    guarded([&] { tg::Language::from_name(novel); });
    guarded([&] { tg::Language::from_env("de_" + novel + ".UTF-8@" + novel); });
    guarded([&] { tg::Language::from_spec("de", novel, novel); });
    guarded([&] { tg::PluralForms::from_string("Plural-Forms: nplurals=2; plural=n==" + novel.substr(1) + ";"); });
    guarded([&] { tg::PluralForms::from_string("nplurals=2; plural=(n != 1);").get_plural(static_cast<unsigned>(i)); });
    guarded([&] { tg::IConv c("UTF-8", "ISO-8859-1"); c.convert("text " + novel); });
    guarded([&] { tg::IConv c("UTF-8", "X-" + novel); c.convert("text " + novel); });
  }
  // A cache with a bound is nobody's loss: only what still grows after a long time does.
  template<class F> void rounds(const char* what, F round)
  {
    std::vector<uint64_t> held;
    auto grows = [&](size_t from)
    {
      for (size_t i = from; i < held.size(); ++i) if (held[i] <= held[i - 1]) return false;
      return true;
    };
    bool fresh = op->a.size() % 2 == 0;
    for (int i = 0; i < 300; ++i)
    {
      ctl.steps = 0;
      if (fresh) novelties(i);
      if (!round(i)) break;
      held.push_back(live_bytes());
      if (i == 5 && !grows(2)) break;
      if (i == 5) count("probe.long_cycles");
      if (i > 50 && !grows(held.size() - 4)) break;
      if (i == 299) bad("leak", Str("memory held after ") + what + " grows from round to round: " + tos(static_cast<long>(held[1])) + " ... " + tos(static_cast<long>(held.back())));
    }
    back_as_found();
    ctl.steps = 0;
    count("probe.cycles");
  }

  // load, drop, load, drop ...: memory must not grow
  void cycle(Mgr& m)
  {
    rounds("dropping the cache", [&](int i)
    {
      for (size_t a = 1; a < op->a.size(); ++a)
      {
        tg::Dictionary* d = nullptr;
        guarded([&] { d = &m.real->get_dictionary(language(op->a[a])); });
        if (d && !novel.empty()) novel_lookups(*d, i);
      }
      if (!novel.empty())
      {
        guarded([&] { novel_values(i); });
        guarded([&] { m.real->get_dictionary(tg::Language::from_spec("de", novel, "")); });
      }
      guarded([&] { m.real->get_languages(); });
      msgs.clear();
      guarded([&] { m.real->set_charset(m.charset); });
      return true;
    });
    drop(m);
  }

  void manager_cycle()
  {
    rounds("destroying the manager", [&](int i)
    {
      tg::DictionaryManager* r = nullptr;
      guarded([&]
      {
        if (dsk.real) r = new tg::DictionaryManager(arg(0));
        else
        {
          std::unique_ptr<tg::FileSystem> fs;
          { Out q; fs.reset(new SimFS); }
          r = new tg::DictionaryManager(std::move(fs), arg(0));
        }
      });
      if (!r) return false;
      for (size_t a = 1; a < op->a.size(); ++a)
      {
        const Str& x = op->a[a];
        if (dsk.dirs.count(x)) guarded([&] { r->add_directory(x); });
        else
        {
          tg::Dictionary* d = nullptr;
          guarded([&] { d = &r->get_dictionary(language(x)); });
          if (d && !novel.empty()) novel_lookups(*d, i);
        }
      }
      guarded([&] { delete r; });
      msgs.clear();
      return true;
    });
  }

  void probe()
  {
    Str t;
    for (auto& m : mgrs) for (auto& h : m.second.handed) t += h.first + ":" + digest(*h.second);
    for (auto& f : frees) t += f.first + ":" + digest(*f.second.real);
    trace.push_back(t);
  }

  // ------------------------------------------------------------- dictionaries
  void new_dictionary()
  {
    if (frees.count(arg(0))) return;
    tg::Dictionary* r = nullptr;
    if (!config(guarded([&] { r = new tg::Dictionary(arg(1)); }))) return;
    Free& f = frees[arg(0)];
    f.real = r;
    f.charset = arg(1);
    f.m.d.charset = arg(1);
  }

  void taint(Free& f, const model::ParseResult& pr, const Content& before)
  {
    f.m.tainted = true;
    for (auto& e : before) f.m.allowed[e.first].insert(e.second);
    for (auto& v : pr.versions) f.m.allowed[v.first].insert(v.second);
  }

  void dictionary()
  {
    auto fi = frees.find(arg(0));
    if (fi == frees.end()) return;
    Free& f = fi->second;
    if (op->name == "deldict")
    {
      for (auto& x : frees) if (x.second.m.base == &f.m) return; // another one refers to it
      guarded([&] { delete f.real; });
      frees.erase(fi);
    }
    else if (op->name == "look")
    {
      trace.push_back(digest(*f.real));
    }
    else if (op->name == "fall")
    {
      auto b = frees.find(arg(1));
      if (b == frees.end()) return;
      for (const MDict* x = &b->second.m; x; x = x->base) if (x == &f.m) return; // never in circles
      guarded([&] { f.real->addFallback(b->second.real); });
      f.m.base = &b->second.m;
      f.m.d.fallback = &b->second.m.d;
    }
    else if (op->name == "setpf")
    {
      Str h = Str("Plural-Forms: ") + model::plural_rules[toi(arg(1)) % model::n_plural_rules].header;
      Outcome o = guarded([&] { f.real->set_plural_forms(tg::PluralForms::from_string(h)); });
      if (!config(o)) return;
      f.m.d.rule = model::find_rule(h);
    }
    else if (op->name == "parse")
    {
      const Str path = arg(1);
      bool fuzzy = arg(2) != "0";
      Str bytes = arg(3);
      std::unique_ptr<std::istream> in = make_stream(path, bytes);
      Outcome o = guarded([&] { tg::POParser::parse(path, *in, *f.real, fuzzy); });
      ctl.fail_from = 0;
      bool alloc_failed = ctl.failed != 0;
      trace.push_back(name(o));
      { Out q; in.reset(); }
      bool err = plan.did("read_err", path);
      if (plan.did("read_cut", path)) bytes.resize(static_cast<size_t>(toi(plan.find("read_cut", path)->a[1])));
      if (err) bytes.resize(std::min(bytes.size(), static_cast<size_t>(toi(plan.find("read_err", path)->a[1]))));
      Content before = f.m.d.own;
      model::deny_conversions = plan.did("iconv_open", "*");
      model::ParseResult pr = model::load(bytes, err, fuzzy, f.m.d);
      model::deny_conversions = false;
      for (auto& v : pr.versions) f.m.allowed[v.first].insert(v.second);
      if (pr.errors) count("probe.malformed_place");
      if (use_model && alloc_failed && (o != ok || any_error_logged() || ctl.failed > 1)) { taint(f, pr, before); count("probe.parse_alloc_failure"); }
      else if (use_model && o == ok && pr.read_error) bad("unreported", "reading " + path + " failed, but parse() returned normally");
      else if (use_model && o == ok && pr.bad_charset) bad("unreported", path + " declares a charset that cannot be converted, but parse() returned normally");
      else if (use_model && o != ok && !pr.read_error && !pr.bad_charset && !alloc_failed) bad("unexpected-exception", "parse() " + name(o) + ": " + last_what);
    }
    else
    {
      Key k = key(arg(1), arg(2), arg(3));
      Outcome o;
      Strs forms;
      if (op->name == "add1")
      {
        forms.assign(1, arg(4));
        o = guarded([&] { if (k.has_ctxt) f.real->add_translation(k.ctxt, k.id, arg(4)); else f.real->add_translation(k.id, arg(4)); });
      }
      else
      {
        forms.assign(op->a.begin() + std::min<long>(5, static_cast<long>(op->a.size())), op->a.end());
        if (forms.empty()) return;
        o = guarded([&] { if (k.has_ctxt) f.real->add_translation(k.ctxt, k.id, arg(4), forms); else f.real->add_translation(k.id, arg(4), forms); });
      }
      if (ctl.failed && o != ok)
      {
        count("probe.add_failed");
        // nothing but an entry without any text may be left behind
        return;
      }
      if (o != ok) bad("unexpected-exception", "add_translation() " + name(o) + ": " + last_what);
      if (op->name == "add1") f.m.d.add_single(k, forms[0]); else f.m.d.add_plural(k, forms);
      f.m.allowed[k].insert(f.m.d.own[k]);
    }
  }

  // One lookup, in a free dictionary (ask x "" has ctxt id count) or in one a manager handed out (ask m de ...)
  void single_lookup()
  {
    tg::Dictionary* d = nullptr;
    const MDict* m = nullptr;
    auto fi = frees.find(arg(0));
    auto mi = mgrs.find(arg(0));
    if (arg(1).empty() && fi != frees.end()) { d = fi->second.real; m = &fi->second.m; }
    else if (mi != mgrs.end() && mi->second.handed.count(arg(1)) && mi->second.cache.count(arg(1)))
    {
      d = mi->second.handed[arg(1)];
      m = mi->second.cache[arg(1)].get();
    }
    if (!d || op->a.size() < 6) return;
    Key k = key(arg(2), arg(3), arg(4));
    bool plural = arg(5) != "-";
    int n = static_cast<int>(toi(arg(5)));
    Str got, p = k.id + " (many)";
    Outcome o = guarded([&]
    {
      std::string r = plural ? k.has_ctxt ? d->translate_ctxt_plural(k.ctxt, k.id, p, n) : d->translate_plural(k.id, p, n)
                             : k.has_ctxt ? d->translate_ctxt(k.ctxt, k.id) : d->translate(k.id);
      got = keep(r);
    });
    trace.push_back(name(o) + got);
    if (!use_model) return;
    if (o != ok)
    {
      if (!ctl.failed) bad("unexpected-exception", "the lookup of " + model::show(k) + " " + name(o) + ": " + last_what);
      count("probe.lookup_threw");
      return;
    }
    Strs want = plural ? wanted_plural(*m, k, n) : wanted(*m, k);
    if (!among(want, got))
      bad("wrong-answer", "dictionary " + arg(0) + (arg(1).empty() ? "" : " " + arg(1)) + " translates " + (plural ? tos(n) + " of " : Str()) + model::show(k) + " as " + show(got) + ", expected " + show(want[0]) +
          (ctl.failed ? " or an exception (an allocation failed)" : ""));
    if (ctl.failed) count("probe.lookup_survived_alloc_failure");
  }

  // --------------------------------------------------------------- conversion
  void conversion()
  {
    const Str& n = op->name;
    auto ci = convs.find(arg(0));
    if (n == "cnew")
    {
      if (ci != convs.end()) return;
      tg::IConv* r = nullptr;
      Cv c;
      if (arg(1).empty())
      {
        if (!config(guarded([&] { r = new tg::IConv; }))) return;
      }
      else
      {
        Outcome o = guarded([&] { r = new tg::IConv(arg(1), arg(2)); });
        if (!set_outcome(o, arg(1), arg(2))) return;
        c.identity = model::upper(arg(1)) == model::upper(arg(2));
        c.from = arg(1);
        c.to = arg(2);
      }
      c.real = r;
      convs[arg(0)] = c;
      return;
    }
    if (ci == convs.end()) return;
    Cv& c = ci->second;
    if (n == "cdel")
    {
      guarded([&] { delete c.real; });
      convs.erase(ci);
      if (live_cds() > static_cast<int>(convs.size())) bad("leak", "a conversion descriptor is still open after its converter is gone");
    }
    else if (n == "cset")
    {
      Outcome o = guarded([&] { c.real->set_charsets(arg(1), arg(2)); });
      if (!set_outcome(o, arg(1), arg(2))) return;
      c.identity = model::upper(arg(1)) == model::upper(arg(2));
      c.from = arg(1);
      c.to = arg(2);
    }
    else
    {
      Str got;
      Outcome o = guarded([&] { std::string r = c.real->convert(arg(1)); got = keep(r); });
      trace.push_back(name(o) + got);
      if (o != ok)
      {
        if (!ctl.failed) bad("unexpected-exception", "convert() " + name(o) + ": " + last_what);
        count("probe.convert_threw");
        return;
      }
      if (c.identity)
      {
        if (got != arg(1)) bad("wrong-conversion", "text not converted at all came out as " + show(got) + " instead of " + show(arg(1)));
        return;
      }
      model::Conv w = model::convert(c.from, c.to, arg(1));
      Str where = "conversion " + c.from + " -> " + c.to + " of " + show(arg(1)) + " gave " + show(got) + ", expected " + show(w.out_flushed);
      // glibc says a shift twice in these where the output buffer ended between the first one and its character
      if (model::upper(c.to).compare(0, 10, "ISO-2022-C") == 0 || model::upper(c.to).compare(0, 10, "ISO-2022-K") == 0)
        for (Str* x : { &got, &w.out, &w.out_flushed }) *x = single_shifts(*x);
      if (w.valid)
      {
        if (got != w.out_flushed) bad("wrong-conversion", where);
        count("probe.valid_conversion");
        if (w.out_flushed.size() > 4 * arg(1).size()) count("probe.conversion_outgrows_estimate");
      }
      else
      {
        if (got != w.out && got != w.out_flushed) bad("wrong-conversion", where);
        if (!any_error_logged() && ctl.failed == 0) bad("unreported", "conversion " + c.from + " -> " + c.to + " of invalid text " + show(arg(1)) + " was not reported");
        count("probe.invalid_conversion");
      }
    }
  }

  bool set_outcome(Outcome o, const Str& from, const Str& to)
  {
    bool possible = model::convertible(from, to);
    bool failed = plan.fired_any() || ctl.failed;
    trace.push_back(name(o));
    if (o == ok)
    {
      if (!possible || (plan.did_kind("iconv_open")))
        bad("unreported", "setting up the conversion " + from + " -> " + to + " succeeded although it is not available");
      return true;
    }
    count("probe.set_charsets_threw");
    if (possible && !failed) bad("unexpected-exception", "setting up the conversion " + from + " -> " + to + " " + name(o) + ": " + last_what);
    return false;
  }

  // ------------------------------------------------------------------- tables
  void tables()
  {
    static const int ns[] = { 0, 1, 2, 3, 5, 11, 12, 21, 101 };
    uint64_t rng = tou(arg(0));
    auto lookup_failed = [&](Outcome o, const Str& what)
    {
      if (o == ok) return false;
      if (!ctl.failed) bad("unexpected-exception", what + " " + name(o) + ": " + last_what);
      count("probe.table_lookup_threw");
      return true;
    };
    for (int round = 0; round < 2; ++round)
    {
      const std::vector<model::Lang>& langs = model::all_langs();
      for (size_t i = 0; i < langs.size(); ++i)
      {
        if (mix(rng + i + static_cast<uint64_t>(round)) % (round == 0 ? 16 : 3)) continue;
        const model::Lang& l = langs[i];
        Str spec = l.str();
        Str got[3];
        Outcome o = guarded([&] { got[0] = keep(tg::Language::from_spec(l.lang, l.country, l.modifier).str()); });
        if (!lookup_failed(o, "Language::from_spec") && got[0] != spec) bad("wrong-language", "from_spec() for " + spec + " gives " + show(got[0]));
        o = guarded([&] { got[1] = keep(tg::Language::from_env(spec).str()); });
        if (!lookup_failed(o, "Language::from_env") && got[1] != spec) bad("wrong-language", "from_env(" + spec + ") gives " + show(got[1]));
      }
      const std::vector<std::pair<Str, Str> >& names = model::all_names();
      for (size_t i = 0; i < names.size(); ++i)
      {
        if (mix(rng + 999 + i + static_cast<uint64_t>(round)) % (round == 0 ? 12 : 2)) continue;
        Str alias, want = model::lang_of_env(names[i].second).str();
        Outcome o = guarded([&] { alias = keep(tg::Language::from_name(names[i].first).str()); });
        if (!lookup_failed(o, "Language::from_name") && alias != want) bad("wrong-language", "from_name(" + show(names[i].first) + ") gives " + show(alias));
      }
      static const char* const odd[] = { "", "xx", "C", "POSIX", "xx_DE", "klingon", "de_XX", "de_AT.UTF-8", "pt_BR@foo", "sr.UTF-8@latin", "ca_AD@valencia", "deu" };
      for (auto e : odd)
      {
        Str got, want = model::lang_of_env(e).str();
        Outcome o = guarded([&] { got = keep(tg::Language::from_env(e).str()); });
        if (!lookup_failed(o, "Language::from_env") && got != want) bad("wrong-language", "from_env(" + show(e) + ") gives " + show(got) + ", expected " + show(want));
      }
      for (int i = 0; i < model::n_plural_rules; ++i)
      {
        if (mix(rng + 77 + static_cast<uint64_t>(i)) % 4 && round == 0) continue;
        Outcome o;
        Str h = Str("Plural-Forms: ") + model::plural_rules[i].header;
        tg::PluralForms pf;
        o = guarded([&] { pf = tg::PluralForms::from_string(h); });
        if (lookup_failed(o, "PluralForms::from_string")) continue;
        if (!pf) bad("wrong-plural", "the plural rule " + show(h) + " is not known");
        if (pf.get_nplural() != model::plural_rules[i].n) bad("wrong-plural", show(h) + ": wrong number of forms");
        for (int n : ns)
          if (pf.get_plural(n) != model::eval_rule(i, n)) bad("wrong-plural", show(h) + ": wrong form for " + tos(n));
      }
      ctl.fail_from = 0; // second round: memory is available again
      ctl.failed = 0;
    }
    count("probe.tables_checked");
  }

  // ------------------------------------------------- the built-in file system
  void unix_list()
  {
    if (!dsk.real) return;
    Strs got;
    Outcome o = guarded([&]
    {
      tg::UnixFileSystem fs;
      std::vector<std::string> v = fs.open_directory(arg(0));
      for (auto& s : v) { Str c = keep(s); Out q; got.push_back(c); }
    });
    if (open_handles()) bad("open-stream", "still open after a listing:" + open_handle_names());
    bool failed = false;
    for (auto k : {"list_missing", "list_errno", "readdir_err", "fdopendir_err"}) if (plan.did(k, arg(0))) failed = true;
    if (o != ok)
    {
      if (!failed && !ctl.failed && dsk.dirs.count(arg(0))) bad("unexpected-exception", "listing " + arg(0) + " " + name(o) + ": " + last_what);
      count("probe.listing_failed");
      return;
    }
    if (failed) bad("unreported", "listing " + arg(0) + " failed part-way, but open_directory() returned " + tos(static_cast<long>(got.size())) + " entries");
    if (!dsk.dirs.count(arg(0))) bad("unreported", "listing " + arg(0) + ", which does not exist, gave no failure");
    Strs want;
    for (auto& f : dsk.dirs[arg(0)]) want.push_back(f.first);
    got.erase(std::remove(got.begin(), got.end(), Str(".")), got.end());
    got.erase(std::remove(got.begin(), got.end(), Str("..")), got.end());
    std::sort(got.begin(), got.end());
    if (got != want) bad("wrong-listing", "listing " + arg(0) + " gave " + show_forms(got) + ", it holds " + show_forms(want));
    count("probe.listing_compared");
  }

  void unix_open()
  {
    if (!dsk.real) return;
    Str path = arg(0);
    long how = toi(arg(1));
    Str got;
    bool refused = false, bad_stream = false, finished = false;
    Outcome o = guarded([&]
    {
      tg::UnixFileSystem fs;
      std::unique_ptr<std::istream> in = fs.open_file(path);
      if (!in || !*in) { refused = true; return; }
      if (how == 0)
      {
        std::string line;
        while (std::getline(*in, line)) { Out q; got.append(line.data(), line.size()); if (!in->eof()) got += '\n'; }
      }
      else if (how == 1)
      {
        char buf[37];
        do { in->read(buf, sizeof buf); Out q; got.append(buf, static_cast<size_t>(in->gcount())); } while (*in);
      }
      else if (how == 2)
      {
        int c;
        while ((c = in->get()) != EOF) { Out q; got += static_cast<char>(c); }
      }
      else
      {
        std::istreambuf_iterator<char> b(*in), e;
        for (; b != e; ++b) { char c = *b; Out q; got += c; }
      }
      bad_stream = in->bad();
      finished = true;
    });
    (void)finished;
    if (open_handles()) bad("open-stream", "still open after the stream is gone:" + open_handle_names());
    bool noopen = plan.did("open_errno", path) || plan.did("open_missing", path);
    bool readerr = plan.did("read_err", path);
    const Str* want = dsk.file(path);
    if (noopen || !want)
    {
      if (o == ok && !refused) bad("unreported", "opening " + path + " failed, but the stream looks usable");
      count("probe.open_failed");
      return;
    }
    if (readerr)
    {
      if (o == ok && !bad_stream && !refused) bad("unreported", "reading " + path + " failed after " + tos(static_cast<long>(got.size())) + " bytes, but the stream shows no error");
      if (*want != subdir_mark && want->compare(0, got.size(), got) != 0 && how != 0) bad("wrong-bytes", "bytes read from " + path + " are not those of the file");
      count("probe.read_failed");
      return;
    }
    if (o != ok) bad("unexpected-exception", "reading " + path + " " + name(o) + ": " + last_what);
    if (refused) bad("unexpected-failure", path + " could not be opened although nothing failed");
    if (bad_stream) bad("unexpected-failure", "the stream reports an error although nothing failed");
    if (got != *want) bad("wrong-bytes", "read " + tos(static_cast<long>(got.size())) + " bytes from " + path + " that differ from the " + tos(static_cast<long>(want->size())) + " bytes in the file");
    count("probe.file_compared");
  }
};

Session* Session::current = nullptr;

void run_callbacks(const Scenario& s)
{
  capture_output();
  Session a(s, false, false);
  a.run();
  Session b(s, false, true);
  b.run();
  if (s.num("pedantry"))
  {
    // how pedantic the diagnostics are does not matter either
    Session c(s, false, false);
    c.invert_pedantic = true;
    c.run();
    for (size_t i = 0; i < s.ops.size(); ++i)
      if (a.trace[i] != c.trace[i])
      {
        res->op = static_cast<int>(i);
        snprintf(res->op_name, sizeof res->op_name, "%s", s.ops[i].name.c_str());
        violation("pedantry-changes-result", "operation " + tos(static_cast<long>(i)) + " (" + s.ops[i].name + ") gives another result with the other setting of POParser::pedantic: " +
                  a.trace[i].substr(0, 300) + " against " + c.trace[i].substr(0, 300));
      }
    count("probe.pedantry_compared");
  }
  CbKind cur[3] = { cb_record, cb_record, cb_record };
  for (size_t i = 0; i < s.ops.size(); ++i)
  {
    res->op = static_cast<int>(i);
    snprintf(res->op_name, sizeof res->op_name, "%s", s.ops[i].name.c_str());
    if (s.ops[i].name == "cb" && s.ops[i].a.size() > 1) cur[toi(s.ops[i].a[0]) % 3] = static_cast<CbKind>(toi(s.ops[i].a[1]));
    if (a.trace[i] != b.trace[i])
      violation("callback-changes-result", "operation " + tos(static_cast<long>(i)) + " (" + s.ops[i].name + ") gives another result with other log callbacks: " + a.trace[i].substr(0, 300) + " against " + b.trace[i].substr(0, 300));
    const Str where = "operation " + tos(static_cast<long>(i)) + " (" + s.ops[i].name + "): ";
    std::vector<Msg> want;
    size_t pos = 0;
    if (!a.printed[i].empty()) violation("diagnostic-unasked", where + "printed although every severity has a callback: " + show(a.printed[i].substr(0, 300)));
    if (!b.printed[i].empty() && cur[0] != cb_default && cur[1] != cb_default && cur[2] != cb_default)
      violation("diagnostic-unasked", where + "printed although the printing callback is not installed: " + show(b.printed[i].substr(0, 300)));
    for (auto& m : a.messages[i])
    {
      CbKind k = cur[m.level];
      if (k == cb_default)
      {
        pos = b.printed[i].find(m.text, pos);
        if (pos == Str::npos) violation("diagnostic-lost", where + "the printing callback did not get " + show(m.text));
        pos += m.text.size();
        count("probe.diagnostic_printed");
        continue;
      }
      if (k == cb_none) { count("probe.diagnostic_not_recorded"); continue; }
      want.push_back(m);
      if (k == cb_switch) cur[m.level] = cb_none;
    }
    const std::vector<Msg>& got = b.messages[i];
    for (size_t j = 0; j < std::max(want.size(), got.size()); ++j)
    {
      static const char* const names[] = { "info", "warning", "error" };
      if (j >= got.size()) violation("diagnostic-lost", "operation " + tos(static_cast<long>(i)) + " (" + s.ops[i].name + "): a message of severity " + names[want[j].level] + " was not delivered: " + show(want[j].text));
      if (j >= want.size()) violation("diagnostic-unasked", "operation " + tos(static_cast<long>(i)) + " (" + s.ops[i].name + "): a message reached the " + names[got[j].level] + " callback that should not: " + show(got[j].text));
      if (want[j].level != got[j].level || want[j].text != got[j].text)
        violation("diagnostic-misrouted", "operation " + tos(static_cast<long>(i)) + " (" + s.ops[i].name + "): expected " + names[want[j].level] + " message " + show(want[j].text) + " but " + names[got[j].level] + " message " + show(got[j].text) + " was delivered");
      count("probe.diagnostic_delivered");
    }
  }
}

void run_orders(const Scenario& s)
{
  std::vector<std::unique_ptr<Session> > all;
  long n = s.num("orders", 3);
  for (long i = 0; i < n; ++i)
  {
    order_seed = i == 0 ? 0 : mix(static_cast<uint64_t>(s.num("order_base", 1) + i)) | 1;
    Session x(s, false, false);
    x.run();
    std::unique_ptr<Session> keep(nullptr);
    static Strs first;
    if (i == 0) { first = x.trace; continue; }
    for (size_t j = 0; j < first.size() && j < x.trace.size(); ++j)
      if (first[j] != x.trace[j])
      {
        res->op = static_cast<int>(j);
        size_t k = 0;
        while (k < first[j].size() && k < x.trace[j].size() && first[j][k] == x.trace[j][k]) ++k;
        size_t b = k > 60 ? k - 60 : 0;
        violation("order-dependent", "operation " + tos(static_cast<long>(j)) + " (" + s.ops[j].name + ") depends on the listing order: ..." +
                  first[j].substr(b, 140) + "... against ..." + x.trace[j].substr(b, 140) + "...");
      }
    count("probe.orders_compared");
  }
}

} // namespace

void execute(const Scenario& s)
{
  if (s.profile == "C13") run_callbacks(s);
  else if (s.profile == "C05") run_orders(s);
  else { Session x(s, true, false); x.run(); }
}

} // namespace sim
