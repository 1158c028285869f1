// simsched: several caller threads in one process under a seeded scheduler.
//
// The library is compiled with the compiler's thread-sanitizer instrumentation, but linked against the call-backs below
// instead of the sanitizer's runtime: every memory access, atomic operation, lock, static-initialisation guard,
// allocation, log message, disk access and charset conversion of the library is a point where the scheduler may park the
// running thread and release another one. Exactly one thread runs at any time and the seed decides which. A vector-clock
// check on every access finds unordered conflicting accesses; results are compared with those each thread obtains alone.
#include "exec.hpp"
#include "seams.hpp"
#include <algorithm>
#include <cerrno>
#include <cxxabi.h>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <iconv.h>
#include <istream>
#include <linux/futex.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <stdexcept>
#include <streambuf>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"
#include "tinygettext/unix_file_system.hpp"

extern "C" {
iconv_t __real_iconv_open(const char*, const char*);
size_t __real_iconv(iconv_t, char**, size_t*, char**, size_t*);
int __real_iconv_close(iconv_t);
extern char __executable_start, etext, edata, end;
}

namespace tg = tinygettext;

namespace sim {

Result* res = nullptr;
bool trace_events = false;
Str sched_note;

namespace {

const int max_threads = 4;
typedef uint32_t Clock[max_threads];

enum State { runnable, blocked, finished };

struct Thread
{
  int id = 0;
  State state = runnable;
  uintptr_t waiting_for = 0;
  int go = 0;                       // futex word
  Clock vc = {};
  bool in_lib = false;
  uint64_t allocs = 0, fail_from = 0, fail_len = 0, failed = 0;
  uint64_t steps = 0;
  int op = -1;
  char* stack = nullptr;
  size_t stack_size = 0;
  std::vector<std::pair<int, Str> > msgs;
  pthread_t handle = 0;
  int priority = 0;
};

Thread threads[max_threads];
int nthreads = 0;
thread_local Thread* self = nullptr;
bool main_in_lib = false;           // set-up and tear-down, done by the main thread
int main_go = 0;

// scopes: outside the code under test; inside it
struct Outside
{
  bool old;
  Outside() : old(self ? self->in_lib : main_in_lib) { (self ? self->in_lib : main_in_lib) = false; }
  ~Outside() { (self ? self->in_lib : main_in_lib) = old; }
};
struct Inside
{
  bool old;
  Inside() : old(self ? self->in_lib : main_in_lib) { (self ? self->in_lib : main_in_lib) = true; }
  ~Inside() { (self ? self->in_lib : main_in_lib) = old; }
};

// ---- scheduling ----------------------------------------------------------------------------------------------------
enum Point { at_access, at_sync, at_call };
uint64_t step_no = 0;
long gap = LONG_MAX;
double gap_mean = 50;
int call_percent = 0, sync_percent = 0;
bool priorities = false, serial = false;
std::vector<uint64_t> change_points;
size_t next_change = 0;
Rng* rng = nullptr;
std::vector<std::pair<uint64_t, int> > script;  // recorded switches to follow
size_t next_script = 0;
bool scripted = false;
uint64_t step_limit = 20000000;
uint64_t since_switch = 0;
const uint64_t fair = 300000;       // nobody keeps the others waiting for longer, so that waiting in a loop works
uint64_t sched_hash = 1469598103934665603ull;

void futex_wait(int* w)
{
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void futex_post(int* w)
{
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void draw_gap()
{
  if (gap_mean <= 0) { gap = LONG_MAX; return; }
  uint64_t m = static_cast<uint64_t>(2 * gap_mean);
  gap = 1 + static_cast<long>(rng->below(m ? m : 1));
}

int choose(int except)
{
  int best = -1;
  if (serial)
  {
    for (int i = 0; i < nthreads; ++i) if (threads[i].state == runnable && i != except) return i;
    return -1;
  }
  if (priorities)
  {
    for (int i = 0; i < nthreads; ++i)
      if (threads[i].state == runnable && i != except && (best < 0 || threads[i].priority > threads[best].priority)) best = i;
    return best;
  }
  int n = 0;
  for (int i = 0; i < nthreads; ++i) if (threads[i].state == runnable && i != except) ++n;
  if (!n) return -1;
  int k = static_cast<int>(rng->below(static_cast<uint64_t>(n)));
  for (int i = 0; i < nthreads; ++i) if (threads[i].state == runnable && i != except && k-- == 0) return i;
  return -1;
}

void note_switch(int to)
{
  since_switch = 0;
  uint64_t v[2] = { step_no, static_cast<uint64_t>(to) };
  sched_hash = fnv(v, sizeof v, sched_hash);
  ++res->nswitches;
  if (res->nsched < Result::max_sched) { res->sched[res->nsched].step = step_no; res->sched[res->nsched].to = to; ++res->nsched; }
  if (trace_events) { printf("step %llu: thread %d runs\n", static_cast<unsigned long long>(step_no), to); fflush(stdout); }
}

void hand_over(int to)
{
  Thread* me = self;
  if (me && me->id == to) return;
  note_switch(to);
  futex_post(&threads[to].go);
  if (me && me->state != finished) futex_wait(&me->go);
}

// The running thread cannot go on
void switch_away()
{
  Outside o;
  int to = -1;
  if (scripted)
  {
    while (next_script < script.size() && script[next_script].first < step_no) ++next_script;
    if (next_script < script.size() && script[next_script].first == step_no)
    {
      int t = script[next_script++].second;
      if (t >= 0 && t < nthreads && threads[t].state == runnable) to = t;
    }
    if (to < 0) for (int i = nthreads - 1; i >= 0; --i) if (threads[i].state == runnable) to = i;
  }
  else to = choose(self ? self->id : -1);
  if (to < 0)
  {
    bool all = true;
    for (int i = 0; i < nthreads; ++i) if (threads[i].state != finished) all = false;
    if (!all)
    {
      Str who;
      for (int i = 0; i < nthreads; ++i) if (threads[i].state == blocked) who += " thread " + tos(i) + " (operation " + tos(threads[i].op) + ")";
      violation("deadlock", "no thread can go on; waiting:" + who);
    }
    futex_post(&main_go);
    return;
  }
  hand_over(to);
}

void point(Point kind)
{
  Thread* t = self;
  if (!t || !t->in_lib) return;
  ++step_no;
  if (++t->steps > step_limit) { Outside o; violation("hang", "operation " + tos(t->op) + " of thread " + tos(t->id) + " did not finish within " + tos(static_cast<long>(step_limit)) + " steps"); }
  if (serial) return;
  Outside o;
  if (++since_switch > fair)
  {
    since_switch = 0;
    for (int k = 1; k < nthreads; ++k)
    {
      int to = (t->id + k) % nthreads;
      if (threads[to].state != runnable) continue;
      if (priorities) t->priority = -1000 - static_cast<int>(step_no / fair);
      hand_over(to);
      return;
    }
  }
  if (scripted)
  {
    while (next_script < script.size() && script[next_script].first < step_no) ++next_script;
    if (next_script < script.size() && script[next_script].first == step_no)
    {
      int to = script[next_script++].second;
      if (to >= 0 && to < nthreads && to != t->id && threads[to].state == runnable) hand_over(to);
    }
    return;
  }
  if (priorities)
  {
    if (next_change < change_points.size() && change_points[next_change] <= step_no)
    {
      ++next_change;
      t->priority = -static_cast<int>(next_change);
      int to = choose(-1);
      if (to >= 0 && to != t->id) hand_over(to);
    }
    return;
  }
  bool sw = --gap <= 0;
  if (kind == at_sync && sync_percent && rng->chance(sync_percent, 100)) sw = true;
  if (kind == at_call && call_percent && rng->chance(call_percent, 100)) sw = true;
  if (!sw) return;
  draw_gap();
  int to = choose(t->id);
  if (to >= 0) hand_over(to);
}

// ---- happens-before ------------------------------------------------------------------------------------------------
std::map<uintptr_t, std::vector<uint32_t> >* syncs = nullptr;

void acquire(uintptr_t a)
{
  Thread* t = self;
  if (!t || !syncs) return;
  Outside o;
  auto i = syncs->find(a);
  if (i == syncs->end()) return;
  for (int k = 0; k < max_threads; ++k) t->vc[k] = std::max(t->vc[k], i->second[static_cast<size_t>(k)]);
}
void release(uintptr_t a)
{
  Thread* t = self;
  if (!t) return;
  Outside o;
  if (!syncs) syncs = new std::map<uintptr_t, std::vector<uint32_t> >;
  auto& v = (*syncs)[a];
  v.resize(max_threads);
  for (int k = 0; k < max_threads; ++k) v[static_cast<size_t>(k)] = std::max(v[static_cast<size_t>(k)], t->vc[k]);
  ++t->vc[t->id];
}

// shadow of the watched memory: one cell a word, in pages of 64 words
struct Cell { uint32_t w[max_threads][8], r[max_threads][8]; };
const size_t npages = 1 << 15, page_words = 64;
uintptr_t* page_keys = nullptr;  // word / page_words, 0: free
Cell* cells = nullptr;
size_t used_pages = 0;

Cell* cell(uintptr_t word, bool make)
{
  static uintptr_t last_key;
  static size_t last_page;
  if (!cells)
  {
    if (!make) return nullptr;
    page_keys = static_cast<uintptr_t*>(mmap(nullptr, npages * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    cells = static_cast<Cell*>(mmap(nullptr, npages * page_words * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  uintptr_t key = word / page_words;
  if (key != last_key)
  {
    size_t i = (key * 0x9e3779b97f4a7c15ull) >> 49;
    while (page_keys[i] && page_keys[i] != key) i = (i + 1) & (npages - 1);
    if (!page_keys[i])
    {
      if (!make) return nullptr;
      if (used_pages > npages * 3 / 4) { count("probe.memory_not_watched"); return nullptr; }
      page_keys[i] = key;
      ++used_pages;
    }
    last_key = key;
    last_page = i;
  }
  return &cells[last_page * page_words + word % page_words];
}

void forget(uintptr_t p, size_t n)
{
  Outside o;
  if (syncs && !syncs->empty()) syncs->erase(syncs->lower_bound(p), syncs->lower_bound(p + n));
  if (!cells) return;
  for (uintptr_t w = p >> 3; w <= (p + n - 1) >> 3; ++w)
  {
    Cell* c = cell(w, false);
    if (!c) { w |= page_words - 1; continue; }
    memset(c->w, 0, sizeof c->w);
    memset(c->r, 0, sizeof c->r);
  }
}

// memory allocated by operator new, to know what may be shared
std::map<uintptr_t, size_t>* blocks = nullptr;

bool watched(uintptr_t a)
{
  if (a >= reinterpret_cast<uintptr_t>(&etext) && a < reinterpret_cast<uintptr_t>(&end)) return true; // variables of the program
  if (a >= reinterpret_cast<uintptr_t>(&__executable_start) && a < reinterpret_cast<uintptr_t>(&etext)) return false;
  if (!blocks) return false;
  auto i = blocks->upper_bound(a);
  if (i == blocks->begin()) return false;
  --i;
  return a < i->first + i->second;
}

Str where(uintptr_t a)
{
  if (a >= reinterpret_cast<uintptr_t>(&etext) && a < reinterpret_cast<uintptr_t>(&end)) return "a variable with static storage";
  auto i = blocks->upper_bound(a);
  --i;
  return "byte " + tos(static_cast<long>(a - i->first)) + " of a heap block of " + tos(static_cast<long>(i->second)) + " bytes";
}

void access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc)
{
  Thread* t = self;
  if (!t || !t->in_lib || !n) return;
  uint64_t h = (pc * 0x9e3779b97f4a7c15ull) >> 48;
  res->cov[h >> 3] = static_cast<unsigned char>(res->cov[h >> 3] | (1u << (h & 7)));
  if (serial) { point(atomic ? at_sync : at_access); return; }
  if (a >= reinterpret_cast<uintptr_t>(t->stack) && a < reinterpret_cast<uintptr_t>(t->stack) + t->stack_size) return;
  point(atomic ? at_sync : at_access);
  Outside o;
  uint32_t now = t->vc[t->id];
  int id = t->id;
  for (size_t k = 0; k < n;)
  {
    uintptr_t w = (a + k) >> 3;
    Cell* c = cell(w, true);
    size_t lo = (a + k) & 7, hi = std::min<size_t>(8, lo + (n - k));
    k += hi - lo;
    if (!c) continue;
    bool conflict = false, other_write = false;
    int other = 0;
    for (int u = 0; u < nthreads; ++u)
    {
      if (u == id) continue;
      uint32_t seen = t->vc[u];
      for (size_t b = lo; b < hi; ++b)
      {
        if (c->w[u][b] > seen) { conflict = true; other_write = true; other = u; }
        else if (write && c->r[u][b] > seen) { conflict = true; other = u; }
      }
    }
    if (conflict && watched(w << 3 | lo))
    {
      t->in_lib = false;
      Dl_info di;
      Str fn;
      if (dladdr(reinterpret_cast<void*>(pc), &di) && di.dli_sname) 
      {
        int st = 0;
        char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        fn = Str(" in ") + (d && strlen(d) < 300 ? d : di.dli_sname);
        free(d);
      }
      violation("data-race", "thread " + tos(id) + " (operation " + tos(t->op) + ")" + (write ? " writes" : " reads") + fn + " what thread " + tos(other) + " (operation " +
                tos(threads[other].op) + ") " + (other_write ? "writes" : "reads") + " without any order between them: " + where(w << 3 | lo));
    }
    if (!atomic)
      for (size_t b = lo; b < hi; ++b) (write ? c->w : c->r)[id][b] = now;
  }
}

// ---- the thread's own faults ---------------------------------------------------------------------------------------
const Scenario* current = nullptr;
const Fault* fault(const char* kind, const Str& path)
{
  if (!self || self->op < 0) return nullptr;
  for (auto& f : current->ops[static_cast<size_t>(self->op)].faults)
    if (f.kind == kind && !f.a.empty() && f.a[0] == path) { count((Str("fault.") + kind).c_str()); return &f; }
  return nullptr;
}

std::map<Str, std::map<Str, Str> > dirs;

class Buf : public std::streambuf
{
  Str name, bytes, window;
  size_t at = 0;
  long err = -1;
protected:
  int_type underflow() override
  {
    Outside o;
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    size_t end_ = err >= 0 ? std::min(bytes.size(), static_cast<size_t>(err)) : bytes.size();
    if (at >= end_)
    {
      if (err >= 0) throw std::runtime_error("simulated read error");
      return traits_type::eof();
    }
    size_t n = std::min<size_t>(end_ - at, 512);
    window = bytes.substr(at, n);
    at += n;
    setg(&window[0], &window[0], &window[0] + window.size());
    return traits_type::to_int_type(*gptr());
  }
public:
  Buf(const Str& n, const Str& b) : name(n), bytes(b) { if (const Fault* f = fault("read_err", n)) err = toi(f->a.at(1)); }
};
class Stream : public std::istream
{
  Buf b;
public:
  Stream(const Str& n, const Str& bytes) : std::istream(nullptr), b(n, bytes) { rdbuf(&b); }
};

class FS : public tg::FileSystem
{
public:
  std::vector<std::string> open_directory(const std::string& pathname) override
  {
    point(at_call);
    Outside o;
    if (fault("list_throw", pathname)) throw std::runtime_error("simulated I/O error: " + pathname);
    auto d = dirs.find(pathname);
    if (d == dirs.end()) throw std::runtime_error("no such directory: " + pathname);
    Strs r;
    for (auto& f : d->second) r.push_back(f.first);
    return r;
  }
  std::unique_ptr<std::istream> open_file(const std::string& filename) override
  {
    point(at_call);
    Outside o;
    if (fault("open_throw", filename)) throw std::runtime_error("simulated open error");
    if (fault("open_null", filename)) return nullptr;
    size_t s = filename.rfind('/');
    Str bytes;
    bool ok = false;
    if (s != Str::npos)
    {
      auto d = dirs.find(filename.substr(0, s));
      if (d != dirs.end())
      {
        auto f = d->second.find(filename.substr(s + 1));
        if (f != d->second.end()) { bytes = f->second; ok = true; }
      }
    }
    std::unique_ptr<std::istream> st(new Stream(filename, bytes));
    if (!ok) st->setstate(std::ios::failbit);
    return st;
  }
};

template<int level> void callback(const std::string& s)
{
  point(at_call);
  Outside o;
  if (self && self->msgs.size() < 4000) self->msgs.push_back(std::make_pair(level, Str(s.data(), s.size())));
}

// ---- operations ----------------------------------------------------------------------------------------------------
struct Shared          // results, visible across the processes of one run
{
  struct One { uint64_t hash; int done; char text[200]; } one[2][Result::max_ops]; // [0] alone, [1] together
  int finished[max_threads + 1];
};
Shared* results = nullptr;

struct Objects
{
  std::map<Str, tg::DictionaryManager*> mgrs;
  std::map<Str, tg::Dictionary*> dicts;         // own
  std::map<Str, tg::Dictionary*> handed;        // owned by a manager
  std::map<Str, tg::IConv*> convs;
};
Objects shared_objects;
Objects own[max_threads];

const Str none;

tg::Dictionary* find_dict(Objects& mine, const Str& n)
{
  for (Objects* o : {&mine, &shared_objects})
  {
    auto i = o->dicts.find(n);
    if (i != o->dicts.end()) return i->second;
    auto j = o->handed.find(n);
    if (j != o->handed.end()) return j->second;
  }
  return nullptr;
}

tg::Language language(const Str& spec)
{
  Strs p(3);
  int k = 0;
  for (char c : spec) { if (c == '_') k = 1; else if (c == '@') k = 2; else p[static_cast<size_t>(k)] += c; }
  return tg::Language::from_spec(p[0], p[1], p[2]);
}

void perform(const Op& o, Objects& mine, Str& r)
{
  const Str& n = o.name;
  auto arg = [&](size_t i) -> const Str& { return i + 1 < o.a.size() ? o.a[i + 1] : none; };
  auto say = [&](const std::string& s) { Outside q; r += show(Str(s.data(), s.size())) + ";"; };
  if (n == "mgr")
  {
    if (mine.mgrs.count(arg(0))) return;
    std::unique_ptr<tg::FileSystem> fs;
    if (arg(2) == "unix") fs.reset(new tg::UnixFileSystem); // on the directories in the scratch directory
    else { Outside q; fs.reset(new FS); }
    tg::DictionaryManager* m = new tg::DictionaryManager(std::move(fs), arg(1));
    Outside q;
    mine.mgrs[arg(0)] = m;
    return;
  }
  if (n == "dict")
  {
    if (mine.dicts.count(arg(0))) return;
    tg::Dictionary* d = new tg::Dictionary(arg(1));
    Outside q;
    mine.dicts[arg(0)] = d;
    return;
  }
  if (n == "cnew")
  {
    if (mine.convs.count(arg(0))) return;
    tg::IConv* c = new tg::IConv(arg(1), arg(2));
    Outside q;
    mine.convs[arg(0)] = c;
    return;
  }
  if (n == "lang")
  {
    tg::Language l = language(arg(0));
    say(l.str());
    say(l.get_name());
    tg::Language e = tg::Language::from_env(arg(0));
    say(e.str());
    say(tg::Language::from_name(arg(1)).str());
    tg::Language copy = l;
    say(copy == l ? "same" : "different");
    say(std::to_string(tg::Language::match(l, e)));
    return;
  }
  if (n == "pf")
  {
    tg::PluralForms p = tg::PluralForms::from_string(arg(0));
    say(p ? "known" : "unknown");
    if (p) for (int k : {0, 1, 2, 3, 5, 21, 100}) say(std::to_string(p.get_plural(k)));
    return;
  }
  auto m = mine.mgrs.find(arg(0));
  if (m != mine.mgrs.end())
  {
    if (n == "adddir") m->second->add_directory(arg(1), arg(2) == "1");
    else if (n == "setcharset") m->second->set_charset(arg(1));
    else if (n == "setfuzzy") m->second->set_use_fuzzy(arg(1) == "1");
    else if (n == "setlang") { m->second->set_language(language(arg(1))); say(m->second->get_language().str()); }
    else if (n == "langs") { std::set<tg::Language> s = m->second->get_languages(); Strs v; for (auto& l : s) { std::string t = l.str(); Outside q; v.push_back(t); } std::sort(v.begin(), v.end()); for (auto& t : v) say(t); }
    else if (n == "getl" || n == "get")
    {
      tg::Dictionary* d = n == "get" ? &m->second->get_dictionary() : &m->second->get_dictionary(language(arg(1)));
      Outside q;
      mine.handed[arg(n == "get" ? 1 : 2)] = d;
      r += "handed;";
    }
    else if (n == "delmgr")
    {
      delete m->second;
      Outside q;
      mine.mgrs.erase(m);
      mine.handed.clear();
    }
    return;
  }
  auto c = mine.convs.find(arg(0));
  if (c != mine.convs.end())
  {
    if (n == "conv") say(c->second->convert(arg(1)));
    else if (n == "cset") c->second->set_charsets(arg(1), arg(2));
    return;
  }
  tg::Dictionary* d = find_dict(mine, arg(0));
  if (!d) return;
  if (n == "parse")
  {
    std::unique_ptr<std::istream> in;
    { Outside q; in.reset(new Stream(arg(1), arg(3))); }
    tg::POParser::parse(arg(1), *in, *d, arg(2) != "0");
    Outside q;
    in.reset();
  }
  else if (n == "look") say(arg(1) == "1" ? d->translate_ctxt(arg(2), arg(3)) : d->translate(arg(3)));
  else if (n == "lookp")
  {
    int k = static_cast<int>(toi(arg(5)));
    say(arg(1) == "1" ? d->translate_ctxt_plural(arg(2), arg(3), arg(4), k) : d->translate_plural(arg(3), arg(4), k));
  }
  else if (n == "each")
  {
    std::vector<std::pair<Str, Str> > all;
    auto put = [&](const std::string& ctxt, const std::string& id, const std::vector<std::string>& v)
    {
      std::string t;
      for (auto& x : v) t += x + "|";
      Outside q;
      all.push_back(std::make_pair(ctxt + "/" + id, t));
    };
    d->foreach([&](const std::string& id, const std::vector<std::string>& v) { put("", id, v); });
    d->foreach_ctxt([&](const std::string& ctxt, const std::string& id, const std::vector<std::string>& v) { put(ctxt, id, v); });
    Outside q;
    std::sort(all.begin(), all.end());
    for (auto& e : all) r += show(e.first) + "=" + show(e.second) + ";";
  }
  else if (n == "charset")
  {
    say(d->get_charset());
    tg::PluralForms f = d->get_plural_forms();
    if (f) say(std::to_string(f.get_nplural()) + "/" + std::to_string(f.get_plural(2)));
  }
  else if (n == "fall")
  {
    tg::Dictionary* to = find_dict(mine, arg(1));
    if (to && to != d) d->addFallback(to);
  }
  else if (n == "add1") { if (arg(1) == "1") d->add_translation(arg(2), arg(3), arg(4)); else d->add_translation(arg(3), arg(4)); }
}

void do_op(int index, const Op& o, Objects& mine, int phase)
{
  Thread* t = self;
  Str r;
  if (t)
  {
    t->op = index;
    t->msgs.clear();
    t->allocs = t->failed = t->fail_from = 0;
    t->steps = 0;
    for (auto& f : o.faults)
      if (f.kind == "alloc" && !f.a.empty()) { t->fail_from = tou(f.a[0]); t->fail_len = f.a.size() > 1 ? tou(f.a[1]) : 1; }
  }
  if (trace_events) { printf("thread %d begins operation %d %s\n", t ? t->id : -1, index, o.name.c_str()); fflush(stdout); }
  try { Inside i; perform(o, mine, r); }
  catch (std::bad_alloc&) { Outside q; r += "threw bad_alloc"; }
  catch (std::exception& e) { Outside q; r += Str("threw ") + e.what(); }
  catch (...) { Outside q; r += "threw"; }
  if (t)
  {
    res->peak = std::max(res->peak, t->steps * 1000 / step_limit);
    if (t->failed) count("fault.alloc", t->failed);
    t->fail_from = 0;
    for (auto& m : t->msgs) r += "[" + tos(m.first) + " " + m.second + "]";
    res->op_allocs[index] = t->allocs;
    res->allocs += t->allocs;
    ++res->nops;
  }
  auto& one = results->one[phase][index];
  one.hash = fnv(r);
  snprintf(one.text, sizeof one.text, "%s", r.c_str());
  one.done = 1;
  if (trace_events) { printf("thread %d ends operation %d: %.300s\n", t ? t->id : -1, index, r.c_str()); fflush(stdout); }
}

int thread_of(const Op& o) { return o.name == "write" || o.name == "mkdir" || o.name == "sched" ? -1 : o.a.empty() || o.a[0] == "s" ? -1 : static_cast<int>(toi(o.a[0])) % max_threads; }

int phase_now = 1;
void* body(void* p)
{
  Thread* t = static_cast<Thread*>(p);
  self = t;
  futex_wait(&t->go);
  for (size_t i = 0; i < current->ops.size(); ++i)
    if (thread_of(current->ops[i]) == t->id) do_op(static_cast<int>(i), current->ops[i], own[t->id], phase_now);
  t->state = finished;
  switch_away();
  futex_wait(&t->go);   // what threads do when they end happens one at a time as well
  self = nullptr;
  return nullptr;
}

void set_up()
{
  for (size_t i = 0; i < current->ops.size(); ++i)
  {
    const Op& o = current->ops[i];
    if (o.name == "write" && o.a.size() > 2) dirs[o.a[0]][o.a[1]] = o.a[2];
    else if (o.name == "mkdir" && !o.a.empty()) dirs[o.a[0]];
    else if (!o.a.empty() && o.a[0] == "s") do_op(static_cast<int>(i), o, shared_objects, phase_now);
  }
}

void tear_down()
{
  for (int i = -1; i < nthreads; ++i)
  {
    Objects& o = i < 0 ? shared_objects : own[i];
    for (auto& m : o.mgrs) delete m.second;
    for (auto& d : o.dicts) delete d.second;
    for (auto& c : o.convs) delete c.second;
  }
}

// Runs the program; only: this thread alone (all others do nothing), or -1
void run_program(int only)
{
  nthreads = 0;
  for (auto& o : current->ops) nthreads = std::max(nthreads, thread_of(o) + 1);
  serial = only >= 0;
  phase_now = serial ? 0 : 1;
  tg::Log::set_log_info_callback(&callback<0>);
  tg::Log::set_log_warning_callback(&callback<1>);
  tg::Log::set_log_error_callback(&callback<2>);
  set_up();
  if (!nthreads) return;
  cpu_set_t set;
  CPU_ZERO(&set);
  int cpu = sched_getcpu();
  CPU_SET(cpu < 0 ? 0 : static_cast<size_t>(cpu), &set);
  sched_setaffinity(0, sizeof set, &set);
  for (int i = 0; i < nthreads; ++i)
  {
    Thread& t = threads[i];
    t.id = i;
    t.vc[i] = 1;
    t.state = only >= 0 && i != only ? finished : runnable;
    t.priority = i + 1;
    t.stack_size = 1 << 20;
    t.stack = static_cast<char*>(mmap(nullptr, t.stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t.stack, t.stack_size);
    if (t.state != finished && pthread_create(&t.handle, &at, &body, &t) != 0) { perror("pthread_create"); _exit(3); }
    pthread_attr_destroy(&at);
  }
  if (!serial && !scripted)
  {
    std::vector<int> p;
    for (int i = 0; i < nthreads; ++i) p.push_back(i + 1);
    rng->shuffle(p);
    for (int i = 0; i < nthreads; ++i) threads[i].priority = p[static_cast<size_t>(i)];
  }
  switch_away();
  futex_wait(&main_go);
  for (int i = 0; i < nthreads; ++i) if (threads[i].handle) { futex_post(&threads[i].go); pthread_join(threads[i].handle, nullptr); }
  tear_down();
}

} // namespace

void count(const char* name, uint64_t n)
{
  for (int i = 0; i < res->ncounters; ++i)
    if (strcmp(res->counters[i].name, name) == 0) { res->counters[i].n += n; return; }
  if (res->ncounters < Result::max_counters)
  {
    snprintf(res->counters[res->ncounters].name, sizeof res->counters[0].name, "%s", name);
    res->counters[res->ncounters++].n = n;
  }
}
void event(const Str& what)
{
  res->hash = fnv(what, res->hash * 31 + 7);
  if (trace_events) { printf("%s\n", what.c_str()); fflush(stdout); }
}
void violation(const Str& kind, const Str& msg)
{
  if (self) self->in_lib = false;
  uint64_t h[2] = { sched_hash, step_no };
  res->hash = fnv(h, sizeof h, fnv(kind, res->hash));
  res->violation = 1;
  res->op = self ? self->op : -1;
  snprintf(res->kind, sizeof res->kind, "%s", kind.c_str());
  snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
  res->finished = 1;
  if (trace_events) { printf("VIOLATION %s: %s\n", kind.c_str(), msg.c_str()); fflush(stdout); }
  _exit(0);
}

void execute(const Scenario& s)
{
  current = &s;
  results = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  int n = 0;
  for (auto& o : s.ops) n = std::max(n, thread_of(o) + 1);
  if (s.ops.size() > static_cast<size_t>(Result::max_ops)) return;

  if (s.get("fs") == "unix")
    for (auto& o : s.ops)
    {
      if (o.name != "write" && o.name != "mkdir") continue;
      mkdir(o.a.at(0).c_str(), 0777);
      if (o.name == "write") { std::ofstream out(o.a[0] + "/" + o.a.at(1), std::ios::binary); out << o.a.at(2); }
    }

  // each thread alone, in a process image of its own
  uint64_t alone_steps = 0;
  for (int i = 0; i < n; ++i)
  {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
      struct itimerval cpu = {{0, 0}, {120, 0}};
      setitimer(ITIMER_PROF, &cpu, nullptr); // processor time: other load on the machine must not matter
      alarm(600);
      bool tr = trace_events;
      trace_events = false;
      (void)tr;
      run_program(i);
      results->finished[i] = 1;
      res->alone_steps[i] = step_no;
      _exit(0);
    }
    int st = 0;
    if (pid > 0) waitpid(pid, &st, 0);
    if (pid < 0 || !results->finished[i]) 
    { // not a matter of threads
      res->violation = 0;
      res->finished = 0;
      count("probe.thread_alone_failed");
      event("alone failed");
      return;
    }
    alone_steps += res->alone_steps[i];
  }
  memset(res->counters, 0, sizeof res->counters);
  res->ncounters = 0;
  res->nops = 0;
  res->allocs = 0;
  res->nsched = 0;
  res->nswitches = 0;

  Rng r(tou(s.get("sched_seed", "1")));
  rng = &r;
  for (auto& o : s.ops)
    if (o.name == "sched")
    {
      scripted = true;
      for (auto& e : o.a)
      {
        size_t c = e.find(':');
        if (c != Str::npos) script.push_back(std::make_pair(tou(e.substr(0, c)), static_cast<int>(toi(e.substr(c + 1)))));
      }
    }
  gap_mean = static_cast<double>(s.num("gap", 50));
  call_percent = static_cast<int>(s.num("call", 0));
  sync_percent = static_cast<int>(s.num("sync", 0));
  priorities = s.get("policy") == "priorities";
  if (priorities)
  {
    for (long i = 0; i < s.num("changes", 3); ++i) change_points.push_back(1 + r.below(alone_steps + 1));
    std::sort(change_points.begin(), change_points.end());
  }
  draw_gap();
  run_program(-1);

  res->steps = step_no;
  uint64_t h[2] = { sched_hash, step_no };
  res->hash = fnv(h, sizeof h, res->hash);
  // a thread that was struck by an allocation failure does other work than it did alone; it is compared up to that
  std::vector<bool> struck(max_threads, false);
  for (size_t i = 0; i < s.ops.size(); ++i)
  {
    int t = thread_of(s.ops[i]);
    if (s.ops[i].name == "write" || s.ops[i].name == "mkdir" || s.ops[i].name == "sched" || t < 0) continue;
    auto& a = results->one[0][i];
    auto& b = results->one[1][i];
    res->hash = fnv(&b.hash, sizeof b.hash, res->hash);
    for (auto& f : s.ops[i].faults) if (f.kind == "alloc") struck[static_cast<size_t>(t)] = true;
    if (s.ops[i].name == "fresh") struck[static_cast<size_t>(t)] = false;
    if (struck[static_cast<size_t>(t)]) continue;
    if (a.done != b.done || a.hash != b.hash)
    {
      res->op = static_cast<int>(i);
      violation("other-result", "operation " + tos(static_cast<long>(i)) + " (" + s.ops[i].name + ") of thread " + tos(t) + " gives " + b.text + " together with the other threads, but " + a.text + " alone");
    }
    count("probe.results_compared");
  }
  if (res->nswitches > static_cast<uint64_t>(n)) count("probe.interleaved_runs");
  count("switches", res->nswitches);
}

namespace {
bool lib() { return self ? self->in_lib : main_in_lib; }

void* sim_new(size_t n)
{
  bool l = lib();
  if (l && self)
  {
    point(at_call);
    Thread* t = self;
    ++t->allocs;
    if (t->fail_from && t->allocs >= t->fail_from && t->allocs < t->fail_from + t->fail_len) { ++t->failed; return nullptr; }
  }
  void* p = malloc(n ? n : 1);
  if (p && current)
  {
    forget(reinterpret_cast<uintptr_t>(p), n ? n : 1);
    if (l)
    {
      Outside o;
      if (!blocks) blocks = new std::map<uintptr_t, size_t>;
      (*blocks)[reinterpret_cast<uintptr_t>(p)] = n ? n : 1;
    }
  }
  return p;
}
void sim_delete(void* p, uintptr_t pc)
{
  if (!p) return;
  if (blocks && current)
  {
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    auto i = blocks->find(a);
    if (i != blocks->end())
    {
      if (lib()) access(a, i->second, true, false, pc);
      Outside o;
      blocks->erase(a);
    }
  }
  free(p);
}
uintptr_t ip(void* p) { return reinterpret_cast<uintptr_t>(p); }
} // namespace
} // namespace sim

using namespace sim;

#define PC ip(__builtin_return_address(0))

void* operator new(size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void operator delete(void* p) noexcept { sim_delete(p, PC); }
void operator delete[](void* p) noexcept { sim_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { sim_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p, PC); }

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access(ip(a), n, false, false, PC); } \
  void __tsan_write##n(void* a) { access(ip(a), n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { access(ip(a), n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { access(ip(a), n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { access(ip(a), n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { access(ip(a), n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access(ip(a), n, false, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { access(ip(a), n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(ip(a), n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(ip(a), n, true, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(ip(a), 8, true, false, PC); }
void __tsan_vptr_read(void** a) { access(ip(a), 8, false, false, PC); }

#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) \
  { access(ip(const_cast<T*>(a)), sizeof(T), false, true, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (mo != __ATOMIC_RELAXED) acquire(ip(const_cast<T*>(a))); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) \
  { access(ip(const_cast<T*>(a)), sizeof(T), true, true, PC); if (mo >= __ATOMIC_RELEASE) release(ip(const_cast<T*>(a))); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  static inline void rmw##bits(volatile T* a, int mo, uintptr_t pc) \
  { access(ip(const_cast<T*>(a)), sizeof(T), true, true, pc); if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(ip(const_cast<T*>(a))); if (mo >= __ATOMIC_RELEASE) release(ip(const_cast<T*>(a))); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) \
  { rmw##bits(a, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) \
  { rmw##bits(a, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) \
  { rmw##bits(a, mo, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { acquire(1); release(1); }
void __tsan_atomic_signal_fence(int) {}

// the library's calls of these (its object files are edited to call them by these names)
void* sim_memcpy(void* d, const void* s, size_t n) { access(ip(const_cast<void*>(s)), n, false, false, PC); access(ip(d), n, true, false, PC); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { access(ip(const_cast<void*>(s)), n, false, false, PC); access(ip(d), n, true, false, PC); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { access(ip(d), n, true, false, PC); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { access(ip(const_cast<void*>(a)), n, false, false, PC); access(ip(const_cast<void*>(b)), n, false, false, PC); return memcmp(a, b, n); }
size_t sim_strlen(const char* a) { size_t n = strlen(a); access(ip(const_cast<char*>(a)), n + 1, false, false, PC); return n; }

// ---- static initialisation ---------------------------------------------------------------------------------------
// the guard's first byte: done; second byte: being initialised
int __cxa_guard_acquire(uint64_t* g)
{
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  for (;;)
  {
    point(at_sync);
    if (b[0]) { acquire(ip(g)); return 0; }
    if (!b[1]) { b[1] = 1; acquire(ip(g)); return 1; }
    Thread* t = self;
    if (!t) { fprintf(stderr, "recursive static initialisation\n"); abort(); }
    count("probe.waited_for_initialisation");
    t->state = blocked;
    t->waiting_for = ip(g);
    switch_away();
  }
}
static void wake(uintptr_t a)
{
  Outside o;
  for (int i = 0; i < nthreads; ++i)
    if (threads[i].state == blocked && threads[i].waiting_for == a) { threads[i].state = runnable; threads[i].waiting_for = 0; }
}
void __cxa_guard_release(uint64_t* g)
{
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  release(ip(g));
  b[0] = 1;
  b[1] = 0;
  wake(ip(g));
  point(at_sync);
}
void __cxa_guard_abort(uint64_t* g)
{
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  release(ip(g));
  b[1] = 0;
  count("probe.initialisation_aborted");
  wake(ip(g));
  point(at_sync);
}

} // extern "C"

// ---- locks ---------------------------------------------------------------------------------------------------------
namespace {
template<class F> F next(const char* name)
{
  void* p = dlsym(RTLD_NEXT, name);
  F f;
  memcpy(&f, &p, sizeof f);
  return f;
}
struct Lock { int owner = -1, depth = 0, readers = 0; std::set<int> reading; };
std::map<void*, Lock>* locks = nullptr;
bool managed() { return self && self->in_lib; }
Lock& lock_of(void* m) { if (!locks) locks = new std::map<void*, Lock>; return (*locks)[m]; }
void block_on(void* m)
{
  count("probe.waited_for_lock");
  self->state = blocked;
  self->waiting_for = ip(m);
  switch_away();
}
std::set<void*>* onces = nullptr;
} // namespace

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!managed()) return next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock")(m);
  point(at_sync);
  Outside o;
  for (;;)
  {
    Lock& l = lock_of(m);
    bool recursive = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE;
    if (l.owner < 0 || (l.owner == self->id && recursive)) { l.owner = self->id; ++l.depth; acquire(ip(m)); return 0; }
    block_on(m);
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!managed()) return next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m);
  point(at_sync);
  Outside o;
  Lock& l = lock_of(m);
  if (l.owner >= 0 && l.owner != self->id) return EBUSY;
  l.owner = self->id;
  ++l.depth;
  acquire(ip(m));
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if (!managed()) return next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock")(m);
  {
    Outside o;
    Lock& l = lock_of(m);
    release(ip(m));
    if (--l.depth <= 0) { l.owner = -1; l.depth = 0; wake(ip(m)); }
  }
  point(at_sync);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if (!managed()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock")(m);
  point(at_sync);
  Outside o;
  for (;;)
  {
    Lock& l = lock_of(m);
    if (l.owner < 0) { l.reading.insert(self->id); acquire(ip(m)); return 0; }
    block_on(m);
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  if (!managed()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock")(m);
  point(at_sync);
  Outside o;
  for (;;)
  {
    Lock& l = lock_of(m);
    if (l.owner < 0 && l.reading.empty()) { l.owner = self->id; acquire(ip(m)); acquire(ip(m) + 1); return 0; }
    block_on(m);
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  if (!managed()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock")(m);
  {
    Outside o;
    Lock& l = lock_of(m);
    if (l.owner == self->id) { l.owner = -1; release(ip(m)); }
    else { l.reading.erase(self->id); release(ip(m) + 1); }  // readers are ordered before the next writer only
    wake(ip(m));
  }
  point(at_sync);
  return 0;
}
int pthread_once(pthread_once_t* c, void (*f)())
{
  if (!managed()) return next<int (*)(pthread_once_t*, void (*)())>("pthread_once")(c, f);
  for (;;)
  {
    point(at_sync);
    if (*c & 2) { acquire(ip(c)); return 0; }
    bool mine = false;
    {
      Outside o;
      if (!onces) onces = new std::set<void*>;
      mine = onces->insert(c).second;
      if (!mine) block_on(c);
    }
    if (!mine) continue;
    acquire(ip(c));
    try { f(); }
    catch (...) { release(ip(c)); { Outside o; onces->erase(c); } wake(ip(c)); throw; }
    release(ip(c));
    *c |= 2;
    { Outside o; onces->erase(c); }
    wake(ip(c));
    return 0;
  }
}
int sched_yield(void) { if (managed()) { point(at_sync); return 0; } return next<int (*)()>("sched_yield")(); }

iconv_t __wrap_iconv_open(const char* to, const char* from)
{
  point(at_call);
  Outside o;
  iconv_t c = __real_iconv_open(to, from);
  if (c != reinterpret_cast<iconv_t>(-1))
  {
    forget(ip(c), 8);
    if (!blocks) blocks = new std::map<uintptr_t, size_t>;
    (*blocks)[ip(c)] = 8;
  }
  return c;
}
size_t __wrap_iconv(iconv_t c, char** ib, size_t* il, char** ob, size_t* ol)
{
  // a conversion descriptor is not to be used by two threads at once, nor the text
  access(ip(c), 8, true, false, PC);
  if (ob && *ob && ol) access(ip(*ob), *ol, true, false, PC);
  if (ib && *ib && il) access(ip(*ib), *il, false, false, PC);
  Outside o;
  return __real_iconv(c, ib, il, ob, ol);
}
int __wrap_iconv_close(iconv_t c) 
{
  access(ip(c), 8, true, false, PC);
  Outside o;
  if (blocks) blocks->erase(ip(c));
  return __real_iconv_close(c);
}

} // extern "C"
