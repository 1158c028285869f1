// The seams of the single-caller simulator: allocator, step counter, disk, libc calls, iconv, log callbacks.
#pragma once
#include "core.hpp"
#include <istream>
#include <memory>
#include "tinygettext/file_system.hpp"

namespace sim {

// ---- result of one run, in memory shared with the parent process ----------
struct Result
{
  static const int max_counters = 120, max_ops = 400;
  int finished;
  int violation;
  int op;                    // operation being executed
  char op_name[32];
  char kind[64];
  char msg[4000];
  uint64_t hash;             // over the whole event log
  uint64_t steps;            // basic blocks executed by the code under test
  uint64_t allocs;
  uint64_t peak;             // largest share of its step bound an operation used, in thousandths
  uint64_t nops;
  uint64_t op_allocs[max_ops];
  int ncounters;
  struct { char name[40]; uint64_t n; } counters[max_counters];
  unsigned char cov[1 << 13];  // 2^16 bits of program points
  // several threads: the schedule that was run
  static const int max_sched = 200000;
  uint64_t nswitches;
  uint64_t alone_steps[8];
  int nsched;
  struct { uint64_t step; int to; } sched[max_sched];  // not cleared between runs
};
extern Result* res;

void count(const char* name, uint64_t n = 1);
void event(const Str& what);                                    // append to the event log (hash)
[[noreturn]] void violation(const Str& kind, const Str& msg);   // ends the run
extern bool trace_events;

// ---- allocator and step counter -------------------------------------------
struct Ctl
{
  bool in_lib = false;
  uint64_t allocs = 0;        // in the current operation
  uint64_t fail_from = 0;     // first failing allocation (1-based), 0: none
  uint64_t fail_len = 0;
  uint64_t failed = 0;        // failures delivered in the current operation
  uint64_t steps = 0, step_limit = 0; // current operation
};
extern Ctl ctl;

struct Lib                    // scope: inside the code under test
{
  bool old;
  Lib() : old(ctl.in_lib) { ctl.in_lib = true; }
  ~Lib() { ctl.in_lib = old; }
};
struct Out                    // scope: back in the simulator (callbacks)
{
  bool old;
  Out() : old(ctl.in_lib) { ctl.in_lib = false; }
  ~Out() { ctl.in_lib = old; }
};

uint64_t live_bytes();        // memory the code under test holds
uint64_t live_blocks();
Str unreachable_blocks();     // "" or a description of blocks nothing refers to any more

// ---- disk ------------------------------------------------------------------
typedef std::map<Str, Str> Dir;
struct Disk
{
  std::map<Str, Dir> dirs;
  bool real = false;          // mirrored in the scratch directory
  void mkdir(const Str& d);
  void rmdir(const Str& d);
  void write(const Str& d, const Str& f, const Str& bytes);
  void rm(const Str& d, const Str& f);
  const Str* file(const Str& path) const;   // "dir/name"
};

// Faults of the current operation, and what became of them.
struct Fired { Str kind, path; };
struct Plan
{
  const std::vector<Fault>* faults = nullptr;
  std::vector<Fired> fired;
  Strs opened;                              // catalogues opened
  Strs listed;
  uint64_t delivered = 0;
  const Fault* find(const char* kind, const Str& path) const;
  bool fired_any() const { return !fired.empty(); }
  bool did(const Str& kind, const Str& path) const;
  bool did_kind(const Str& kind) const;
  void fire(const Str& kind, const Str& path);
};
extern Plan plan;
extern Disk* disk;
extern int live_streams;
extern uint64_t order_seed;                  // listing order used when the operation gives none (0: sorted)

class SimFS : public tinygettext::FileSystem
{
public:
  std::vector<std::string> open_directory(const std::string& pathname) override;
  std::unique_ptr<std::istream> open_file(const std::string& filename) override;
};
// A stream over bytes with the faults the plan has for this name
std::unique_ptr<std::istream> make_stream(const Str& name, const Str& bytes);
void permute(Strs& names, const Str& path);

int open_handles();           // libc files and directories the code under test holds open
Str open_handle_names();

// ---- iconv -------------------------------------------------------------------
int live_cds();
void iconv_begin_op();

// ---- log ---------------------------------------------------------------------
struct Msg { int level; Str text; };         // 0 info, 1 warning, 2 error
extern std::vector<Msg> msgs;                // delivered in the current operation
enum CbKind { cb_record, cb_none, cb_lookup, cb_throw_std, cb_throw_int, cb_switch, cb_default };
void install(int level, CbKind k);
void capture_output();                       // from now on, printed_text is what the current operation wrote to the standard streams
extern Str* printed_text;
extern void (*lookup_hook)();                // what a looking-up callback does
bool error_logged(const Str& text);
bool any_error_logged();

void begin_op(int index, const Op& op, uint64_t input_bytes);
void end_op();

} // namespace sim
