// simfault: runs, replays and minimises scenarios of the single-caller simulator.
#include "core.hpp"
#include "exec.hpp"
#include "model.hpp"
#include "seams.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstddef>
#include <ctime>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <locale>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {

Result* shared = nullptr;
int err_fd = -1;
Str scratch;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }

struct Verdict { bool bad = false; Str kind, msg; int op = -1; uint64_t hash = 0; };

Str read_err()
{
  Str s;
  char b[4096];
  lseek(err_fd, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(err_fd, b, sizeof b)) > 0 && s.size() < 60000) s.append(b, static_cast<size_t>(n));
  return s;
}

Verdict run(const Scenario& s, bool trace = false)
{
  memset(static_cast<void*>(shared), 0, offsetof(Result, sched));
  res = shared;
  if (ftruncate(err_fd, 0) != 0) {}
  lseek(err_fd, 0, SEEK_SET);
  bool real = s.get("fs") == "unix";
  Str dir = scratch + "/run";
  if (real)
  {
    std::filesystem::remove_all(dir);
    std::filesystem::create_directory(dir);
  }
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0)
  {
    struct itimerval cpu = {{0, 0}, {120, 0}};
    setitimer(ITIMER_PROF, &cpu, nullptr); // processor time: other load on the machine must not matter
    alarm(600);
    dup2(err_fd, 2);
    trace_events = trace;
    if (real && chdir(dir.c_str()) != 0) _exit(3);
    try { execute(s); }
    catch (std::bad_alloc&) { fprintf(stderr, "terminate called: the objects under test are corrupt (absurd allocation)\n"); fflush(stderr); _exit(99); }
    catch (std::length_error&) { fprintf(stderr, "terminate called: the objects under test are corrupt (absurd length)\n"); fflush(stderr); _exit(99); }
    catch (std::exception& e) { fprintf(stderr, "simulator: %s\n", e.what()); _exit(3); }
    shared->finished = 1;
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (real) std::filesystem::remove_all(dir);
  Verdict v;
  v.hash = shared->hash;
  v.op = shared->op;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
  {
    fprintf(stderr, "simulator failure: %s\n", read_err().c_str());
    exit(2);
  }
  if (!shared->finished || !WIFEXITED(st) || WEXITSTATUS(st) != 0)
  {
    v.bad = true;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) { v.kind = "stalled"; v.msg = "no progress for 120 s"; return v; }
    Str e = read_err(), line;
    std::istringstream in(e);
    while (std::getline(in, line))
    {
      size_t p;
      for (auto mark : {"AddressSanitizer: ", "runtime error: ", "Assertion ", "terminate called", "what():", "AddressSanitizer:DEADLYSIGNAL", "pure virtual"})
        if ((p = line.find(mark)) != Str::npos && v.msg.size() < 400) { v.msg += (v.msg.empty() ? "" : "; ") + line.substr(Str(mark).find("Assert") == 0 ? 0 : p); break; }
    }
    v.kind = "crash";
    if (WIFSIGNALED(st)) v.msg = "killed by signal " + tos(WTERMSIG(st)) + ": " + v.msg;
    v.msg = "in operation " + tos(v.op) + " (" + shared->op_name + "): " + v.msg;
    return v;
  }
  if (shared->violation) { v.bad = true; v.kind = shared->kind; v.msg = shared->msg; }
  return v;
}

// allocation faults are generated relative to the number of allocations of the calm run
void resolve(Scenario& s)
{
  bool any = false;
  for (auto& o : s.ops) for (auto& f : o.faults) if (f.kind == "alloc" && !f.a.empty() && f.a[0][0] == 'p') any = true;
  if (!any) return;
  Scenario calm = s;
  for (auto& o : calm.ops)
    o.faults.erase(std::remove_if(o.faults.begin(), o.faults.end(), [](const Fault& f) { return f.kind == "alloc"; }), o.faults.end());
  run(calm);
  for (size_t i = 0; i < s.ops.size(); ++i)
    for (auto& f : s.ops[i].faults)
      if (f.kind == "alloc" && f.a[0][0] == 'p')
      {
        uint64_t n = i < Result::max_ops ? shared->op_allocs[i] : 0;
        f.a[0] = tos(static_cast<long>(1 + tou(f.a[0].substr(1)) * n / 1000));
      }
}

Str json(const Str& s)
{
  Str r = "\"";
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

uint64_t nth_seed(uint64_t base, uint64_t i) { return mix(base * 0x9e3779b97f4a7c15ull + i); }

int batch(const Str& profile, uint64_t base, uint64_t first, uint64_t n, uint64_t stride, double limit)
{
  double t0 = now(), slowest = 0;
  uint64_t slowest_index = 0;
  uint64_t runs = 0, steps = 0, allocs = 0, ops = 0, nontrivial = 0, peak = 0;
  std::map<Str, uint64_t> counters;
  std::set<uint64_t> hashes;
  std::vector<unsigned char> cov(sizeof shared->cov);
  Verdict bad;
  uint64_t bad_index = 0;
  Scenario sample, bad_scenario;
  for (uint64_t i = first; i < n; i += stride)
  {
    if (now() - t0 > limit) break;
    Scenario s = generate(profile, nth_seed(base, i));
    resolve(s);
    double started = now();
    Verdict v = run(s);
    if (now() - started > slowest) { slowest = now() - started; slowest_index = i; }
    ++runs;
    steps += shared->steps;
    allocs += shared->allocs;
    peak = std::max(peak, shared->peak);
    ops += shared->nops;
    bool faulty = false;
    for (int c = 0; c < shared->ncounters; ++c)
    {
      counters[shared->counters[c].name] += shared->counters[c].n;
      if (strncmp(shared->counters[c].name, "fault.", 6) == 0) faulty = true;
    }
    if (hashes.insert(shared->hash).second && (faulty || shared->nops > 2)) ++nontrivial;
    for (size_t k = 0; k < cov.size(); ++k) cov[k] |= shared->cov[k];
    if (runs == 1) sample = s;
    if (v.bad) { bad = v; bad_index = i; bad_scenario = s; break; }
  }
  Str out = "{\"runs\":" + tos(static_cast<long>(runs)) + ",\"steps\":" + tos(static_cast<long>(steps)) + ",\"allocs\":" + tos(static_cast<long>(allocs)) +
            ",\"slowest\":" + std::to_string(slowest) + ",\"slowest_index\":" + tos(static_cast<long>(slowest_index)) + ",\"peak\":" + tos(static_cast<long>(peak)) + ",\"ops\":" + tos(static_cast<long>(ops)) + ",\"nontrivial\":" + tos(static_cast<long>(nontrivial)) + ",\"counters\":{";
  bool f = true;
  for (auto& c : counters) { out += Str(f ? "" : ",") + json(c.first) + ":" + tos(static_cast<long>(c.second)); f = false; }
  out += "},\"hashes\":[";
  f = true;
  for (uint64_t h : hashes) { char b[24]; snprintf(b, sizeof b, "%s\"%llx\"", f ? "" : ",", static_cast<unsigned long long>(h)); out += b; f = false; }
  out += "],\"cov\":\"";
  for (unsigned char c : cov) { char b[4]; snprintf(b, sizeof b, "%02x", c); out += b; }
  out += "\",\"sample\":" + json(to_text(sample));
  if (bad.bad)
    out += ",\"violation\":{\"index\":" + tos(static_cast<long>(bad_index)) + ",\"seed\":\"" + std::to_string(nth_seed(base, bad_index)) + "\",\"kind\":" + json(bad.kind) + ",\"op\":" + tos(bad.op) +
           ",\"msg\":" + json(bad.msg) + ",\"hash\":\"" + std::to_string(bad.hash) + "\",\"scenario\":" + json(to_text(bad_scenario)) + "}";
  out += "}";
  puts(out.c_str());
  return 0;
}

// ------------------------------------------------------------ minimisation
struct Minimiser
{
  Scenario best;
  Str kind;
  int runs = 0;
  int budget;
  double deadline;

  static bool has_schedule(const Scenario& s)
  {
    for (auto& o : s.ops) if (o.name == "sched") return true;
    return false;
  }
  bool kind_of_schedule() const { return best.opt.count("sched_seed") != 0; }
  bool left() const { return runs < budget && now() < deadline; }
  bool still(const Scenario& s)
  {
    if (!left()) return false;
    ++runs;
    Verdict v = run(s);
    return v.bad && v.kind == kind;
  }
  bool accept(const Scenario& s)
  {
    if (has_schedule(best) && !has_schedule(s)) return false;
    if (!still(s)) return false;
    best = s;
    return true;
  }

  void ops()
  {
    for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2);; chunk /= 2)
    {
      for (size_t i = 0; i < best.ops.size() && left();)
      {
        Scenario s = best;
        s.ops.erase(s.ops.begin() + static_cast<long>(i), s.ops.begin() + static_cast<long>(std::min(best.ops.size(), i + chunk)));
        if (!accept(s)) i += chunk;
      }
      if (chunk <= 1) break;
    }
  }
  void faults()
  {
    for (size_t i = 0; i < best.ops.size(); ++i)
      for (size_t j = 0; j < best.ops[i].faults.size() && left();)
      {
        Scenario s = best;
        s.ops[i].faults.erase(s.ops[i].faults.begin() + static_cast<long>(j));
        if (!accept(s)) ++j;
      }
    // single allocation failures are simpler than bursts, early ones simpler than late ones
    for (size_t i = 0; i < best.ops.size(); ++i)
      for (size_t j = 0; j < best.ops[i].faults.size() && left(); ++j)
        if (best.ops[i].faults[j].kind == "alloc" && best.ops[i].faults[j].a.size() > 1)
        {
          Scenario s = best;
          s.ops[i].faults[j].a.resize(1);
          accept(s);
        }
  }
  static Strs pieces(const Str& t, bool lines)
  {
    Strs p;
    Str cur;
    for (size_t i = 0; i < t.size(); ++i)
    {
      cur += t[i];
      if (t[i] == '\n' && (lines || (i > 0 && (t[i - 1] == '\n' || (i > 1 && t[i - 1] == '\r' && t[i - 2] == '\n'))))) { p.push_back(cur); cur.clear(); }
    }
    if (!cur.empty()) p.push_back(cur);
    return p;
  }
  void bytes(bool lines)
  {
    for (size_t i = 0; i < best.ops.size(); ++i)
      for (size_t a = 0; a < best.ops[i].a.size() && left(); ++a)
      {
        if (best.ops[i].a[a].size() < 24) continue;
        for (size_t k = 0; left();)
        {
          Strs p = pieces(best.ops[i].a[a], lines);
          if (k >= p.size() || p.size() < 2) break;
          Str t;
          for (size_t x = 0; x < p.size(); ++x) if (x != k) t += p[x];
          Scenario s = best;
          Str old = s.ops[i].a[a];
          for (auto& o : s.ops) for (auto& v : o.a) if (v == old) v = t;
          if (!accept(s)) ++k;
        }
      }
  }
  // several threads: the switches between them become part of the scenario, then as few of them as needed are kept
  static Scenario with_schedule(const Scenario& s, const Strs& sched)
  {
    Scenario x = s;
    x.ops.erase(std::remove_if(x.ops.begin(), x.ops.end(), [](const Op& o) { return o.name == "sched"; }), x.ops.end());
    Op o;
    o.name = "sched";
    o.a = sched;
    x.ops.push_back(o);
    return x;
  }
  static Strs schedule_of(const Scenario& s)
  {
    for (auto& o : s.ops) if (o.name == "sched") return o.a;
    return Strs();
  }
  bool record()
  {
    run(best);
    if (shared->nsched == 0 || shared->nsched >= Result::max_sched) return false;
    Strs sched;
    for (int i = 0; i < shared->nsched; ++i) sched.push_back(std::to_string(shared->sched[i].step) + ":" + tos(shared->sched[i].to));
    return accept(with_schedule(best, sched));
  }
  void switches()
  {
    Strs cur = schedule_of(best);
    if (cur.empty() || accept(with_schedule(best, Strs()))) return;
    for (size_t chunk = std::max<size_t>(1, cur.size() / 2);; chunk /= 2)
    {
      for (size_t i = 0; i < cur.size() && left();)
      {
        Strs t = cur;
        t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(std::min(cur.size(), i + chunk)));
        if (accept(with_schedule(best, t))) cur = t; else i += chunk;
      }
      if (chunk <= 1) break;
    }
  }
  void go()
  {
    if (kind_of_schedule())
    {
      // first as it is, then with the generated schedule replaced by the recorded one
      ops();
      faults();
      if (record()) { switches(); ops(); switches(); faults(); }
      return;
    }
    ops();
    faults();
    ops();
    bytes(false);
    bytes(true);
    ops();
    faults();
  }
};

} // namespace

int main(int argc, char** argv)
{
  if (argc < 2) return 2;
  // addresses must not differ from process to process
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1 &&
      (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", argv);
  Str cmd = argv[1];
  { // the C++ library fills tables on first use; that must not depend on what this process did before a run
    std::stringstream w("12 x\n");
    int n;
    Str l;
    w >> n;
    std::getline(w, l);
    std::ostringstream o;
    o << n << ' ' << 1.5 << std::endl;
    const std::ctype<char>& c = std::use_facet<std::ctype<char> >(std::locale::classic());
    char b[4];
    c.widen('a');
    c.narrow('a', 'b');
    c.widen(l.data(), l.data() + l.size(), b);
    c.narrow(l.data(), l.data() + l.size(), '?', b);
    model::all_names();
    model::lang_of("de");
    model::convert("ISO-8859-15", "UTF-8", "x");
  }
  shared = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  res = shared;
  err_fd = memfd_create("stderr", 0);
  Str base = getenv("SIM_SCRATCH") ? getenv("SIM_SCRATCH") : "/tmp";
  Str tmpl = base + "/simfault.XXXXXX";
  std::vector<char> t(tmpl.begin(), tmpl.end());
  t.push_back(0);
  if (!mkdtemp(t.data())) { perror("mkdtemp"); return 2; }
  scratch = t.data();
  int rc = 0;
  if (cmd == "batch" && argc == 8)
    rc = batch(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), strtoull(argv[5], nullptr, 10), strtoull(argv[6], nullptr, 10), atof(argv[7]));
  else if (cmd == "hashes" && argc == 7)
  {
    // profile base first count stride
    uint64_t b = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[6], nullptr, 10);
    for (uint64_t i = first; i < n; i += stride)
    {
      Scenario s = generate(argv[2], nth_seed(b, i));
      resolve(s);
      run(s, getenv("SIM_TRACE") != nullptr);
      printf("%llu %llx\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(shared->hash));
    }
  }
  else if (cmd == "gen" && argc == 5)
  {
    Scenario s = generate(argv[2], nth_seed(strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10)));
    resolve(s);
    fputs(to_text(s).c_str(), stdout);
  }
  else if ((cmd == "replay" || cmd == "min") && argc >= 3)
  {
    std::ifstream in(argv[2]);
    std::stringstream ss;
    ss << in.rdbuf();
    Scenario s = from_text(ss.str());
    if (cmd == "replay")
    {
      Verdict v = run(s, argc > 3);
      printf("{\"violation\":%s,\"kind\":%s,\"op\":%d,\"hash\":\"%llu\",\"msg\":%s}\n", v.bad ? "true" : "false", json(v.kind).c_str(), v.op,
             static_cast<unsigned long long>(v.hash), json(v.msg).c_str());
      if (argc > 3 && v.kind == "crash") fputs(read_err().c_str(), stdout);
    }
    else
    {
      Verdict v = run(s);
      Minimiser m;
      m.best = s;
      m.kind = v.kind;
      m.budget = argc > 3 ? atoi(argv[3]) : 1500;
      m.deadline = now() + (argc > 4 ? atof(argv[4]) : 60);
      if (v.bad) m.go();
      fputs(to_text(m.best).c_str(), stdout);
    }
  }
  else rc = 2;
  std::filesystem::remove_all(scratch);
  return rc;
}
