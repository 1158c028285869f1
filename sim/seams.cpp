#include "seams.hpp"
#include <cstddef>
#include <system_error>
#include <algorithm>
#include <cerrno>
#include <iostream>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iconv.h>
#include <link.h>
#include <new>
#include <stdexcept>
#include <streambuf>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unwind.h>
#include "tinygettext/log.hpp"

extern "C" {
iconv_t __real_iconv_open(const char*, const char*);
size_t __real_iconv(iconv_t, char**, size_t*, char**, size_t*);
int __real_iconv_close(iconv_t);
extern char __executable_start, etext;
const char* __asan_default_options();
const char* __ubsan_default_options();
}
const char* __asan_default_options()
{
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:"
         "quarantine_size_mb=64:thread_local_quarantine_size_kb=1024:malloc_context_size=0:print_summary=1:handle_abort=0:detect_container_overflow=0:use_sigaltstack=0";
}
const char* __ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }

namespace sim {

Result* res = nullptr;
bool trace_events = false;
Ctl ctl;
Plan plan;
Disk* disk = nullptr;
int live_streams = 0;
uint64_t order_seed = 0;
std::vector<Msg> msgs;
void (*lookup_hook)() = nullptr;

void count(const char* name, uint64_t n)
{
  for (int i = 0; i < res->ncounters; ++i)
    if (strcmp(res->counters[i].name, name) == 0) { res->counters[i].n += n; return; }
  if (res->ncounters < Result::max_counters)
  {
    snprintf(res->counters[res->ncounters].name, sizeof res->counters[0].name, "%s", name);
    res->counters[res->ncounters++].n = n;
  }
}

void event(const Str& what)
{
  Out o;
  res->hash = fnv(what, res->hash * 31 + 7);
  if (trace_events) { printf("%s\n", what.c_str()); fflush(stdout); }
}

void violation(const Str& kind, const Str& msg)
{
  ctl.in_lib = false;
  res->violation = 1;
  snprintf(res->kind, sizeof res->kind, "%s", kind.c_str());
  snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
  res->finished = 1;
  if (trace_events) { printf("VIOLATION %s: %s\n", kind.c_str(), msg.c_str()); fflush(stdout); }
  _exit(0);
}

// ------------------------------------------------------------------ memory
namespace {
struct Block { uintptr_t p; size_t n; };
size_t table_size = 1 << 11;
Block* table = nullptr;
uint64_t n_live = 0, b_live = 0, n_used = 0; // used: with tombstones

size_t slot(uintptr_t p) { return mix(p) & (table_size - 1); }

void live_grow()
{
  Block* old = table;
  size_t old_size = table_size;
  if (n_live > table_size / 4) table_size *= 2;
  table = static_cast<Block*>(calloc(table_size, sizeof(Block)));
  n_used = n_live;
  for (size_t k = 0; old && k < old_size; ++k)
  {
    if (old[k].p <= 1) continue;
    size_t i = slot(old[k].p);
    while (table[i].p) i = (i + 1) & (table_size - 1);
    table[i] = old[k];
  }
  free(old);
}

void live_add(void* p, size_t n)
{
  if (!table || n_used > table_size / 2) live_grow();
  size_t i = slot(reinterpret_cast<uintptr_t>(p));
  while (table[i].p > 1) i = (i + 1) & (table_size - 1);
  if (!table[i].p) ++n_used;
  table[i].p = reinterpret_cast<uintptr_t>(p);
  table[i].n = n;
  ++n_live;
  b_live += n;
}

void live_del(void* p)
{
  if (!table) return;
  size_t i = slot(reinterpret_cast<uintptr_t>(p));
  while (table[i].p)
  {
    if (table[i].p == reinterpret_cast<uintptr_t>(p))
    {
      b_live -= table[i].n;
      --n_live;
      table[i].p = 1; // tombstone
      return;
    }
    i = (i + 1) & (table_size - 1);
  }
}

// libstdc++'s directory iterator terminates the program when an allocation of its own fails (it allocates in noexcept
// functions); that is not the code under test, so allocations made by the library while it reads a directory succeed.
bool in_program(uintptr_t p) { return p >= reinterpret_cast<uintptr_t>(&__executable_start) && p < reinterpret_cast<uintptr_t>(&etext); }
_Unwind_Reason_Code look(_Unwind_Context* c, void* found)
{
  uintptr_t p = _Unwind_GetIP(c);
  Dl_info i;
  if (p && !in_program(p) && dladdr(reinterpret_cast<void*>(p), &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++"))
  {
    *static_cast<bool*>(found) = true;
    return _URC_END_OF_STACK;
  }
  return _URC_NO_REASON;
}
bool inside_directory_iterator()
{
  if (!open_handles()) return false;
  bool found = false;
  _Unwind_Backtrace(&look, &found);
  return found;
}

bool may_allocate()
{
  ++ctl.allocs;
  if (ctl.fail_from && ctl.allocs >= ctl.fail_from && ctl.allocs < ctl.fail_from + ctl.fail_len && !inside_directory_iterator())
  {
    ++ctl.failed;
    return false;
  }
  return true;
}

void* sim_new(size_t n)
{
  if (ctl.in_lib && !may_allocate()) return nullptr;
  void* p = malloc(n ? n : 1);
  if (p && ctl.in_lib) live_add(p, n);
  return p;
}
void sim_delete(void* p)
{
  if (!p) return;
  live_del(p);
  free(p);
}
} // namespace

uint64_t live_bytes() { return b_live; }
uint64_t live_blocks() { return n_live; }

namespace {
struct Range { uintptr_t lo, hi; };
int collect(dl_phdr_info* info, size_t size, void* data)
{
  auto* v = static_cast<std::vector<Range>*>(data);
  if (info->dlpi_name && (strstr(info->dlpi_name, "asan") || strstr(info->dlpi_name, "ubsan"))) return 0;
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_TLS && size > offsetof(dl_phdr_info, dlpi_tls_data) && info->dlpi_tls_data)
    { // what is kept per thread
      uintptr_t lo = reinterpret_cast<uintptr_t>(info->dlpi_tls_data);
      v->push_back(Range{(lo + 7) & ~7ul, lo + info->dlpi_phdr[i].p_memsz});
    }
    else if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_W))
    {
      uintptr_t lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
      v->push_back(Range{(lo + 7) & ~7ul, lo + info->dlpi_phdr[i].p_memsz});
    }
  return 0;
}
uintptr_t peek(uintptr_t a) { return *reinterpret_cast<volatile uintptr_t*>(a); }
} // namespace

Str unreachable_blocks()
{
  if (!table || !n_live) return "";
  std::vector<Block> blocks;
  for (size_t i = 0; i < table_size; ++i) if (table[i].p > 1) blocks.push_back(table[i]);
  std::sort(blocks.begin(), blocks.end(), [](const Block& a, const Block& b) { return a.p < b.p; });
  std::vector<char> seen(blocks.size(), 0);
  std::vector<size_t> todo;
  auto visit = [&](uintptr_t w)
  {
    auto it = std::upper_bound(blocks.begin(), blocks.end(), w, [](uintptr_t v, const Block& b) { return v < b.p; });
    if (it == blocks.begin()) return;
    --it;
    if (w >= it->p && w < it->p + (it->n ? it->n : 1))
    {
      size_t k = static_cast<size_t>(it - blocks.begin());
      if (!seen[k]) { seen[k] = 1; todo.push_back(k); }
    }
  };
  std::vector<Range> ranges;
  dl_iterate_phdr(&collect, &ranges);
  for (auto& r : ranges) for (uintptr_t a = r.lo; a + 8 <= r.hi; a += 8) visit(peek(a));
  while (!todo.empty())
  {
    Block b = blocks[todo.back()];
    todo.pop_back();
    for (uintptr_t a = (b.p + 7) & ~7ul; a + 8 <= b.p + b.n; a += 8) visit(peek(a));
  }
  size_t lost = 0, bytes = 0;
  for (size_t i = 0; i < blocks.size(); ++i) if (!seen[i]) { ++lost; bytes += blocks[i].n; }
  if (!lost) return "";
  return tos(static_cast<long>(lost)) + " block(s), " + tos(static_cast<long>(bytes)) + " bytes";
}

// -------------------------------------------------------------------- disk
namespace {
Str real_path(const Str& d, const Str& f) { return d + "/" + f; }
void write_file(const Str& p, const Str& bytes)
{
  int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { perror(p.c_str()); _exit(3); }
  size_t at = 0;
  while (at < bytes.size())
  {
    ssize_t n = ::write(fd, bytes.data() + at, bytes.size() - at);
    if (n <= 0) { perror("write"); _exit(3); }
    at += static_cast<size_t>(n);
  }
  ::close(fd);
}
} // namespace

void Disk::mkdir(const Str& d)
{
  if (dirs.count(d)) return;
  dirs[d];
  if (!real) return;
  for (size_t i = d.find('/', 1); i != Str::npos; i = d.find('/', i + 1)) ::mkdir(d.substr(0, i).c_str(), 0755);
  if (::mkdir(d.c_str(), 0755) != 0) { perror(d.c_str()); _exit(3); }
}
void Disk::rmdir(const Str& d)
{
  auto i = dirs.find(d);
  if (i == dirs.end()) return;
  if (real)
  {
    for (auto& f : i->second)
    {
      if (f.second == subdir_mark) ::rmdir(real_path(d, f.first).c_str());
      else ::unlink(real_path(d, f.first).c_str());
    }
    ::rmdir(d.c_str());
  }
  dirs.erase(i);
}
void Disk::write(const Str& d, const Str& f, const Str& bytes)
{
  mkdir(d);
  const Str link = link_mark;
  bool is_link = bytes.compare(0, link.size(), link) == 0;
  if (real)
  {
    auto old = dirs[d].find(f);
    if (old != dirs[d].end() && (is_link || old->second.compare(0, link.size(), link) == 0)) ::unlink(real_path(d, f).c_str());
    if (!is_link) write_file(real_path(d, f), bytes);
    else if (::symlink(bytes.c_str() + link.size(), real_path(d, f).c_str()) != 0) { perror(f.c_str()); _exit(3); }
  }
  dirs[d][f] = bytes;
}
void Disk::rm(const Str& d, const Str& f)
{
  auto i = dirs.find(d);
  if (i == dirs.end() || !i->second.erase(f)) return;
  if (real) ::unlink(real_path(d, f).c_str());
}
const Str* Disk::file(const Str& path) const
{
  size_t s = path.rfind('/');
  if (s == Str::npos) return nullptr;
  auto d = dirs.find(path.substr(0, s));
  if (d == dirs.end()) return nullptr;
  Str name = path.substr(s + 1);
  const Str link = link_mark;
  for (int i = 0; i < 8; ++i)
  {
    auto f = d->second.find(name);
    if (f == d->second.end()) return nullptr;
    if (f->second.compare(0, link.size(), link) != 0) return &f->second;
    name = f->second.substr(link.size());
  }
  return nullptr; // links in a circle
}

const Fault* Plan::find(const char* kind, const Str& path) const
{
  if (faults)
    for (auto& f : *faults)
      if (f.kind == kind && !f.a.empty() && f.a[0] == path) return &f;
  return nullptr;
}
bool Plan::did(const Str& kind, const Str& path) const
{
  for (auto& f : fired) if (f.kind == kind && f.path == path) return true;
  return false;
}
bool Plan::did_kind(const Str& kind) const
{
  for (auto& f : fired) if (f.kind == kind) return true;
  return false;
}
void Plan::fire(const Str& kind, const Str& path)
{
  if (!did(kind, path)) fired.push_back(Fired{kind, path});
  count(("fault." + kind).c_str());
  event("fault " + kind + " " + path);
}

void permute(Strs& names, const Str& path)
{
  std::sort(names.begin(), names.end());
  uint64_t seed = order_seed;
  if (plan.faults) for (auto& f : *plan.faults) if (f.kind == "order" && !f.a.empty()) seed = order_seed ? mix(order_seed + tou(f.a[0])) | 1 : tou(f.a[0]);
  if (seed == 0 || names.size() < 2) return;
  Strs before = names;
  Rng r(seed ^ fnv(path));
  r.shuffle(names);
  if (names != before) count("fault.order");
}

// file systems fail with exceptions of all kinds
[[noreturn]] static void raise(const Str& what, const Str& path)
{
  struct Bare : std::exception { const char* what() const noexcept override { return "simulated failure"; } };
  switch (fnv(path + what, static_cast<uint64_t>(res->op) + 1) % 6)
  {
    case 0: throw std::system_error(EIO, std::generic_category(), what);
    case 1: throw std::out_of_range(what);
    case 2: throw Bare();
    case 3: throw std::ios_base::failure(what);
    default: throw std::runtime_error(what);
  }
}

std::vector<std::string> SimFS::open_directory(const std::string& pathname)
{
  Out o;
  plan.listed.push_back(pathname);
  event("list " + pathname);
  if (plan.find("list_throw", pathname)) { plan.fire("list_throw", pathname); raise("simulated I/O error: " + pathname, pathname); }
  if (plan.find("list_other", pathname)) { plan.fire("list_other", pathname); throw 42; }
  auto d = disk->dirs.find(pathname);
  if (d == disk->dirs.end()) { plan.fire("list_missing", pathname); throw std::runtime_error("no such directory: " + pathname); }
  Strs r;
  for (auto& f : d->second) r.push_back(f.first);
  permute(r, pathname);
  return r;
}

namespace {
struct DeviceError : std::runtime_error { DeviceError() : std::runtime_error("simulated read error") {} };

class SimBuf : public std::streambuf
{
  Str name, bytes, window;
  size_t at = 0;
  long err = -1;         // fail when this offset is reached
  bool chunked = false;
  Rng rng;
  int mode = 0;
  bool unbuffered = false; // no get area at all: a character at a time, nothing known to be available
  int_type one(bool take)
  {
    if (err >= 0 && at >= static_cast<size_t>(err)) { plan.fire("read_err", name); throw DeviceError(); }
    if (at >= bytes.size()) return traits_type::eof();
    char c = bytes[at];
    if (take) { ++at; ++plan.delivered; }
    return traits_type::to_int_type(c);
  }
protected:
  int_type uflow() override
  {
    if (!unbuffered) return std::streambuf::uflow();
    Out o;
    return one(true);
  }
  int_type underflow() override
  {
    Out o;
    if (unbuffered) return one(false);
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    size_t end = bytes.size();
    if (err >= 0 && static_cast<size_t>(err) < end) end = static_cast<size_t>(err);
    if (at >= end)
    {
      if (err >= 0 && static_cast<size_t>(err) <= at) { plan.fire("read_err", name); throw DeviceError(); }
      return traits_type::eof();
    }
    size_t n = end - at;
    if (chunked)
    {
      size_t m = mode == 0 ? 1 : mode == 1 ? 1 + rng.below(4) : 1 + rng.below(64);
      if (m < n) { n = m; count("fault.short_read"); }
    }
    window = bytes.substr(at, n);
    at += n;
    plan.delivered += n;
    setg(&window[0], &window[0], &window[0] + window.size());
    return traits_type::to_int_type(*gptr());
  }
public:
  SimBuf(const Str& nm, const Str& b) : name(nm), bytes(b), rng(1)
  {
    if (bytes == subdir_mark) err = 0;
    else if (const Fault* f = plan.find("read_err", nm)) err = toi(f->a.at(1));
    if (const Fault* f = plan.find("read_cut", nm))
    {
      size_t k = static_cast<size_t>(toi(f->a.at(1)));
      if (k < bytes.size()) { bytes.resize(k); plan.fire("read_cut", nm); }
    }
    const Fault* f = plan.find("chunk", nm);
    if (!f) f = plan.find("chunk", "*");
    if (f) { chunked = true; mode = static_cast<int>(toi(f->a.at(1))) % 4; rng = Rng(tou(f->a.at(2))); }
    if (mode == 3) { unbuffered = true; count("fault.unbuffered"); }
  }
};

class SimStream : public std::istream
{
  SimBuf b;
public:
  SimStream(const Str& n, const Str& bytes) : std::istream(nullptr), b(n, bytes) { rdbuf(&b); ++live_streams; }
  ~SimStream() override { --live_streams; }
};
} // namespace

std::unique_ptr<std::istream> make_stream(const Str& name, const Str& bytes)
{
  return std::unique_ptr<std::istream>(new SimStream(name, bytes));
}

std::unique_ptr<std::istream> SimFS::open_file(const std::string& filename)
{
  Out o;
  plan.opened.push_back(filename);
  event("open " + filename);
  if (plan.find("open_null", filename)) { plan.fire("open_null", filename); return nullptr; }
  if (plan.find("open_throw", filename)) { plan.fire("open_throw", filename); raise("simulated open error", filename); }
  if (plan.find("open_other", filename)) { plan.fire("open_other", filename); throw 43; }
  const Str* b = disk->file(filename);
  bool bad = false;
  if (plan.find("open_bad", filename)) { plan.fire("open_bad", filename); bad = true; }
  else if (!b) { plan.fire("open_missing", filename); bad = true; }
  auto s = make_stream(filename, b && !bad ? *b : Str());
  if (bad) s->setstate(std::ios::failbit);
  return s;
}

// ---------------------------------------------------------- libc interposition
namespace {
template<class F> F next(const char* name)
{
  static_assert(sizeof(F) == sizeof(void*), "");
  void* p = dlsym(RTLD_NEXT, name);
  F f;
  memcpy(&f, &p, sizeof f);
  return f;
}

struct OpenDir { Str path; std::vector<dirent64> entries; size_t at = 0; long fail_at = -1; };
std::map<void*, OpenDir>* dirs_open = nullptr;
std::map<void*, Str>* files_open = nullptr;
std::map<int, Str>* fds_open = nullptr;
std::map<int, Str>* fd_names = nullptr; // the name each descriptor was opened by, which links hide
std::map<int, std::pair<uint64_t, int> >* eintr_state = nullptr;

bool ours(const char* p) { return ctl.in_lib && p && p[0] != '/' && p[0] != 0; }
Str clean(const char* p)
{
  Str s = p;
  while (s.compare(0, 2, "./") == 0) s.erase(0, 2);
  while (s.size() > 1 && s.back() == '/') s.pop_back();
  return s;
}
Str fd_path(int fd)
{
  char link[64], buf[4096], cwd[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, buf, sizeof buf - 1);
  if (n <= 0 || !getcwd(cwd, sizeof cwd)) return "";
  buf[n] = 0;
  size_t l = strlen(cwd);
  if (strncmp(buf, cwd, l) != 0 || buf[l] != '/') return "";
  if (fd_names && fd_names->count(fd)) return (*fd_names)[fd];
  return buf + l + 1;
}
bool open_fault(const Str& path)
{
  if (const Fault* f = plan.find("open_errno", path))
  {
    plan.fire("open_errno", path);
    errno = static_cast<int>(toi(f->a.at(1)));
    return true;
  }
  return false;
}
bool list_fault(const Str& path)
{
  if (const Fault* f = plan.find("list_errno", path))
  {
    plan.fire("list_errno", path);
    errno = static_cast<int>(toi(f->a.at(1)));
    return true;
  }
  return false;
}
DIR* register_dir(DIR* d, const Str& path)
{
  Out o;
  auto rd = next<dirent64* (*)(DIR*)>("readdir64");
  if (!dirs_open) dirs_open = new std::map<void*, OpenDir>;
  OpenDir od;
  od.path = path;
  while (dirent64* e = rd(d)) { dirent64 c; memset(&c, 0, sizeof c); memcpy(&c, e, std::min<size_t>(e->d_reclen, sizeof c)); od.entries.push_back(c); }
  Strs names;
  std::map<Str, dirent64> by;
  for (auto& e : od.entries) { names.push_back(e.d_name); by[e.d_name] = e; }
  permute(names, path);
  od.entries.clear();
  for (auto& n : names)
  {
    dirent64 e = by[n];
    e.d_ino = 1;
    e.d_off = static_cast<long>(od.entries.size()) + 1;
    if (plan.find("dt_unknown", path)) e.d_type = DT_UNKNOWN;
    od.entries.push_back(e);
  }
  if (plan.find("dt_unknown", path)) plan.fire("dt_unknown", path);
  if (const Fault* f = plan.find("readdir_err", path)) od.fail_at = toi(f->a.at(1)) % (static_cast<long>(names.size()) + 1);
  plan.listed.push_back(path);
  event("list " + path);
  (*dirs_open)[d] = od;
  return d;
}
dirent64* sim_readdir(DIR* d, bool& mine)
{
  mine = false;
  if (!dirs_open) return nullptr;
  auto i = dirs_open->find(d);
  if (i == dirs_open->end()) return nullptr;
  mine = true;
  Out o;
  OpenDir& od = i->second;
  if (od.fail_at >= 0 && static_cast<size_t>(od.fail_at) == od.at)
  {
    plan.fire("readdir_err", od.path);
    errno = EIO;
    return nullptr;
  }
  if (od.at >= od.entries.size()) return nullptr;
  return &od.entries[od.at++];
}
void name_fd(int fd, const Str& p)
{
  if (!fd_names) fd_names = new std::map<int, Str>;
  (*fd_names)[fd] = p;
}
void note_open(void* f, const Str& p)
{
  Out o;
  if (!files_open) files_open = new std::map<void*, Str>;
  (*files_open)[f] = p;
  name_fd(fileno(static_cast<FILE*>(f)), p);
  plan.opened.push_back(p);
  event("open " + p);
}
template<class F> FILE* sim_fopen(F real, const char* p, const char* mode)
{
  if (!ours(p)) return real(p, mode);
  Str path;
  { Out o; path = clean(p); if (open_fault(path)) { plan.opened.push_back(path); return nullptr; } }
  FILE* f;
  { Out o; f = real(p, mode); }
  if (f) note_open(f, path);
  else
  {
    Out o;
    int e = errno;
    plan.opened.push_back(path);
    plan.fire("open_missing", path);
    errno = e;
  }
  return f;
}
int sim_openat(int dirfd, const char* p, int flags, mode_t mode, const char* name)
{
  int r;
  bool mine = ours(p);
  Str path;
  if (mine)
  {
    Out o;
    path = clean(p);
    struct stat st;
    bool isdir = (flags & O_DIRECTORY) || (::stat(p, &st) == 0 && S_ISDIR(st.st_mode));
    if (isdir ? list_fault(path) : open_fault(path)) return -1;
  }
  { Out o; r = next<int (*)(int, const char*, int, mode_t)>(name)(dirfd, p, flags, mode); }
  if (mine)
  {
    Out o;
    int e = errno;
    if (r < 0) plan.fire((flags & O_DIRECTORY) ? "list_missing" : "open_missing", path);
    else
    {
      if (!fds_open) fds_open = new std::map<int, Str>;
      (*fds_open)[r] = path;
      name_fd(r, path);
    }
    errno = e;
  }
  return r;
}
} // namespace

int open_handles()
{
  return static_cast<int>((dirs_open ? dirs_open->size() : 0) + (files_open ? files_open->size() : 0) + (fds_open ? fds_open->size() : 0));
}
Str open_handle_names()
{
  Str r;
  if (dirs_open) for (auto& d : *dirs_open) r += " " + d.second.path;
  if (files_open) for (auto& d : *files_open) r += " " + d.second;
  if (fds_open) for (auto& d : *fds_open) r += " " + d.second;
  return r;
}

} // namespace sim

using namespace sim;

extern "C" {

FILE* fopen(const char* p, const char* mode) { return sim_fopen(next<FILE* (*)(const char*, const char*)>("fopen"), p, mode); }
FILE* fopen64(const char* p, const char* mode) { return sim_fopen(next<FILE* (*)(const char*, const char*)>("fopen64"), p, mode); }
int fclose(FILE* f)
{
  if (files_open) { Out o; files_open->erase(f); }
  return next<int (*)(FILE*)>("fclose")(f);
}
int openat(int d, const char* p, int flags, ...)
{
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  return sim_openat(d, p, flags, m, "openat");
}
int openat64(int d, const char* p, int flags, ...)
{
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  return sim_openat(d, p, flags, m, "openat64");
}
int __openat_2(int d, const char* p, int flags) { return sim_openat(d, p, flags, 0, "openat"); }
int __openat64_2(int d, const char* p, int flags) { return sim_openat(d, p, flags, 0, "openat"); }
int open(const char* p, int flags, ...)
{
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  if (!ours(p)) return next<int (*)(const char*, int, mode_t)>("open")(p, flags, m);
  return sim_openat(AT_FDCWD, p, flags, m, "openat");
}
int open64(const char* p, int flags, ...)
{
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  if (!ours(p)) return next<int (*)(const char*, int, mode_t)>("open64")(p, flags, m);
  return sim_openat(AT_FDCWD, p, flags, m, "openat64");
}
int close(int fd)
{
  if (fds_open) { Out o; fds_open->erase(fd); }
  return next<int (*)(int)>("close")(fd);
}
DIR* opendir(const char* p)
{
  auto real = next<DIR* (*)(const char*)>("opendir");
  if (!ours(p)) return real(p);
  Str path;
  { Out o; path = clean(p); if (list_fault(path)) return nullptr; }
  DIR* d;
  { Out o; d = real(p); }
  if (!d) { Out o; int e = errno; plan.fire("list_missing", path); errno = e; return nullptr; }
  return register_dir(d, path);
}
DIR* fdopendir(int fd)
{
  auto real = next<DIR* (*)(int)>("fdopendir");
  if (!ctl.in_lib) return real(fd);
  Str path;
  { Out o; path = fd_path(fd); }
  if (path.empty()) return real(fd);
  { Out o; if (plan.find("fdopendir_err", path)) { plan.fire("fdopendir_err", path); errno = ENOMEM; return nullptr; } }
  DIR* d;
  { Out o; d = real(fd); }
  if (!d) return nullptr;
  if (fds_open) { Out o; fds_open->erase(fd); }
  return register_dir(d, path);
}
dirent64* readdir64(DIR* d)
{
  bool mine;
  dirent64* e = sim_readdir(d, mine);
  return mine ? e : next<dirent64* (*)(DIR*)>("readdir64")(d);
}
dirent* readdir(DIR* d)
{
  bool mine;
  dirent64* e = sim_readdir(d, mine);
  return mine ? reinterpret_cast<dirent*>(e) : next<dirent* (*)(DIR*)>("readdir")(d);
}
int closedir(DIR* d)
{
  if (dirs_open) { Out o; dirs_open->erase(d); }
  return next<int (*)(DIR*)>("closedir")(d);
}
ssize_t read(int fd, void* buf, size_t n)
{
  auto real = next<ssize_t (*)(int, void*, size_t)>("read");
  if (!ctl.in_lib || !plan.faults) return real(fd, buf, n);
  Out o;
  Str path = fd_path(fd);
  if (path.empty()) return real(fd, buf, n);
  long at = lseek(fd, 0, SEEK_CUR);
  if (const Fault* f = plan.find("eintr", path))
  {
    if (!eintr_state) eintr_state = new std::map<int, std::pair<uint64_t, int> >;
    auto& st = (*eintr_state)[fd];
    if (st.first != static_cast<uint64_t>(at) + 1) { st.first = static_cast<uint64_t>(at) + 1; st.second = static_cast<int>(toi(f->a.at(1))); }
    if (st.second-- > 0) { plan.fire("eintr", path); errno = EINTR; return -1; }
  }
  if (const Fault* f = plan.find("read_err", path))
  {
    long k = toi(f->a.at(1));
    if (at >= k) { plan.fire("read_err", path); errno = EIO; return -1; }
    if (n > static_cast<size_t>(k - at)) n = static_cast<size_t>(k - at);
  }
  const Fault* f = plan.find("chunk", path);
  if (!f) f = plan.find("chunk", "*");
  if (f)
  {
    int mode = static_cast<int>(toi(f->a.at(1))) % 3;
    Rng r(tou(f->a.at(2)) ^ static_cast<uint64_t>(at));
    size_t m = mode == 0 ? 1 : mode == 1 ? 1 + r.below(4) : 1 + r.below(64);
    if (m < n) { n = m; count("fault.short_read"); }
  }
  ssize_t r = real(fd, buf, n);
  if (r > 0) plan.delivered += static_cast<uint64_t>(r);
  if (r < 0) { int e = errno; plan.fire("read_err", path); errno = e; }
  return r;
}

// --------------------------------------------------------------- iconv
static std::set<iconv_t>* cds;
static int n_iconv_open;

iconv_t __wrap_iconv_open(const char* to, const char* from)
{
  Out o;
  ++n_iconv_open;
  if (plan.faults)
    for (auto& f : *plan.faults)
      if (f.kind == "iconv_open" && (f.a.at(0) == "*" || toi(f.a.at(0)) == n_iconv_open))
      {
        plan.fire("iconv_open", f.a[0]);
        errno = static_cast<int>(toi(f.a.at(1)));
        return reinterpret_cast<iconv_t>(-1);
      }
  iconv_t c = __real_iconv_open(to, from);
  event(Str("iconv_open ") + to + " " + from + (c == reinterpret_cast<iconv_t>(-1) ? " failed" : ""));
  if (c != reinterpret_cast<iconv_t>(-1)) { int e = errno; if (!cds) cds = new std::set<iconv_t>; cds->insert(c); errno = e; count("iconv_open"); }
  return c;
}
size_t __wrap_iconv(iconv_t c, char** ib, size_t* il, char** ob, size_t* ol)
{
  { Out o; if (!cds || !cds->count(c)) violation("bad-descriptor", "iconv() called with a conversion descriptor that is not open"); }
  return __real_iconv(c, ib, il, ob, ol);
}
int __wrap_iconv_close(iconv_t c)
{
  { Out o; if (!cds || !cds->erase(c)) violation("bad-descriptor", "iconv_close() called with a conversion descriptor that is not open"); }
  return __real_iconv_close(c);
}

void __sanitizer_cov_trace_pc(void)
{
  if (!ctl.in_lib) return;
  uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  uint64_t h = (pc * 0x9e3779b97f4a7c15ull) >> 48;
  res->cov[h >> 3] = static_cast<unsigned char>(res->cov[h >> 3] | (1u << (h & 7)));
  if (++ctl.steps > ctl.step_limit && ctl.step_limit)
  {
    Out o;
    violation("hang", "operation '" + Str(res->op_name) + "' did not finish within its bound of " + tos(static_cast<long>(ctl.step_limit)) + " steps");
  }
}

} // extern "C"

void* operator new(size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }

namespace sim {

int live_cds() { return cds ? static_cast<int>(cds->size()) : 0; }
void iconv_begin_op() { n_iconv_open = 0; }

// --------------------------------------------------------------------- log
namespace {
CbKind installed[3];
bool nested = false;

template<int level> void record(const std::string& s)
{
  Out o;
  if (nested) return;
  msgs.push_back(Msg{level, s});
}
template<int level> void looking(const std::string& s)
{
  Out o;
  if (nested) return;
  msgs.push_back(Msg{level, s});
  nested = true;
  count("callback.lookup");
  uint64_t steps = ctl.steps;     // the caller's work is not the operation's
  ctl.steps = 0;
  if (lookup_hook) lookup_hook();
  ctl.steps = steps;
  nested = false;
}
template<int level> void throwing_std(const std::string& s)
{
  Out o;
  if (nested) return;
  msgs.push_back(Msg{level, s});
  count("fault.callback_throw");
  throw std::runtime_error("simulated callback failure");
}
template<int level> void throwing_int(const std::string& s)
{
  Out o;
  if (nested) return;
  msgs.push_back(Msg{level, s});
  count("fault.callback_throw");
  throw 7;
}
template<int level> void switching(const std::string& s)
{
  Out o;
  if (nested) return;
  msgs.push_back(Msg{level, s});
  count("callback.switch");
  install(level, cb_none);   // uninstalls itself: nothing more is delivered at this level
}
typedef void (*Cb)(const std::string&);
template<int level> Cb cb_for(CbKind k)
{
  switch (k)
  {
    case cb_record: return &record<level>;
    case cb_none: return nullptr;
    case cb_lookup: return &looking<level>;
    case cb_throw_std: return &throwing_std<level>;
    case cb_throw_int: return &throwing_int<level>;
    case cb_switch: return &switching<level>;
    case cb_default: return &tinygettext::Log::default_log_callback;
  }
  return nullptr;
}
} // namespace

// what the code under test prints, instead of calling back
Str* printed_text = nullptr;
struct PrintBuf : std::streambuf
{
  int_type overflow(int_type c) override
  {
    Out o;
    if (!traits_type::eq_int_type(c, traits_type::eof())) *printed_text += traits_type::to_char_type(c);
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override
  {
    Out o;
    printed_text->append(p, static_cast<size_t>(n));
    return n;
  }
};
void capture_output()
{
  static PrintBuf b;
  printed_text = new Str;
  std::cerr.rdbuf(&b);
  std::clog.rdbuf(&b);
  std::cout.rdbuf(&b);
}

void install(int level, CbKind k)
{
  installed[level] = k;
  if (level == 0) tinygettext::Log::set_log_info_callback(cb_for<0>(k));
  else if (level == 1) tinygettext::Log::set_log_warning_callback(cb_for<1>(k));
  else tinygettext::Log::set_log_error_callback(cb_for<2>(k));
}

bool error_logged(const Str& text)
{
  for (auto& m : msgs) if (m.level == 2 && m.text.find(text) != Str::npos) return true;
  return false;
}
bool any_error_logged()
{
  for (auto& m : msgs) if (m.level == 2) return true;
  return false;
}

void begin_op(int index, const Op& op, uint64_t input_bytes)
{
  res->op = index;
  snprintf(res->op_name, sizeof res->op_name, "%s", op.name.c_str());
  plan = Plan();
  plan.faults = &op.faults;
  msgs.clear();
  if (printed_text) printed_text->clear();
  iconv_begin_op();
  ctl.allocs = ctl.failed = ctl.fail_from = ctl.fail_len = 0;
  for (auto& f : op.faults)
    if (f.kind == "alloc") { ctl.fail_from = tou(f.a.at(0)); ctl.fail_len = f.a.size() > 1 ? tou(f.a[1]) : 1; }
  ctl.steps = 0;
  ctl.step_limit = 3000000 + 4000 * input_bytes;
  event("op " + tos(index) + " " + op.name);
}

void end_op()
{
  if (ctl.failed) { count("fault.alloc", ctl.failed); }
  if (res->op >= 0 && res->op < Result::max_ops) res->op_allocs[res->op] = ctl.allocs;
  res->steps += ctl.steps;
  res->allocs += ctl.allocs;
  ++res->nops;
  count("delivered_bytes", plan.delivered);
  event("end allocs=" + tos(static_cast<long>(ctl.allocs)) + " failed=" + tos(static_cast<long>(ctl.failed)) + " steps=" + tos(static_cast<long>(ctl.steps)) +
        " msgs=" + tos(static_cast<long>(msgs.size())));
  if (ctl.step_limit) res->peak = std::max(res->peak, ctl.steps * 1000 / ctl.step_limit);
  ctl.fail_from = 0;
  ctl.step_limit = 0;
}

} // namespace sim
