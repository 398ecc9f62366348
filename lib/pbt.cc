// Driver of the engine declared in pbt.hpp.
#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

extern "C" const char *__asan_default_options();
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
         "hard_rss_limit_mb=3000:detect_stack_use_after_return=0";
}
extern "C" const char *__ubsan_default_options();
extern "C" const char *__ubsan_default_options() {
  return "halt_on_error=1:abort_on_error=1:print_stacktrace=0";
}

namespace pbt {

constexpr std::size_t MAX_CHOICES = 1u << 18;

struct Shared {
  volatile int state; // 0 idle, 1 running a case, 2 failed, 3 finished
  volatile long check;
  volatile long index;
  volatile std::size_t n;
  volatile double started;
  char msg[4096];
  char known[64];
  char notes[8192];
  std::uint64_t choices[MAX_CHOICES];
};

void Src::record(std::uint64_t v) {
  out_.push_back(v);
  if (shared_ && shared_->n < MAX_CHOICES) {
    shared_->choices[shared_->n] = v;
    shared_->n = shared_->n + 1;
  }
}

std::vector<Check> &registry() {
  static std::vector<Check> r;
  return r;
}

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static std::uint64_t hash_bytes(const void *p, std::size_t n,
                                std::uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  h ^= h >> 29;
  return h;
}

static std::uint64_t case_seed(std::uint64_t seed, const std::string &name,
                               long idx) {
  std::uint64_t h = hash_bytes(name.data(), name.size());
  h = hash_bytes(&seed, sizeof seed, h);
  h = hash_bytes(&idx, sizeof idx, h);
  return h;
}

static void copy_str(char *dst, std::size_t cap, const std::string &s) {
  std::size_t n = std::min(cap - 1, s.size());
  std::memcpy(dst, s.data(), n);
  dst[n] = 0;
}

void (*note_hook)(const std::string &) = nullptr;
static Shared *attempt_shared = nullptr;

enum Outcome { PASS, DISCARDED, FAILED, KNOWN };

// Runs one case in this process.
static Outcome run_case(const Check &chk, Src &src, Case &c, std::string *msg,
                        std::string *known) {
  try {
    chk.fn(c);
    return PASS;
  } catch (const Discard &) {
    return DISCARDED;
  } catch (const Fail &f) {
    *msg = f.msg;
    return FAILED;
  } catch (const Known &k) {
    *msg = k.msg;
    *known = k.id;
    return KNOWN;
  } catch (const std::exception &e) {
    *msg = std::string("unexpected exception: ") + e.what();
    return FAILED;
  } catch (...) {
    *msg = "unexpected exception of unknown type";
    return FAILED;
  }
  (void)src;
}

bool rejects(const std::function<void()> &f, bool exceptions_count) {
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGABRT, SIG_DFL);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    alarm(60);
    try {
      f();
    } catch (...) {
      _exit(exceptions_count ? 1 : 0);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

struct Options {
  std::string property = "X00", tier = "quick", evidence, replay_dir = ".",
              replay, only, scratch, known_file, assumption;
  std::uint64_t seed = 1;
  double scale = 1, max_wall = 600;
  int workers = 8;
};

static double case_cpu_limit = 60; // seconds of CPU for one case
static double case_wall_limit = 150;

static Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    std::perror("mmap");
    std::exit(3);
  }
  std::memset(p, 0, 64);
  return static_cast<Shared *>(p);
}

static void child_setup(const std::string &errfile) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
#if !defined(PBT_ASAN) && !defined(__SANITIZE_THREAD__)
  struct rlimit as = {6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &as);
#endif
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  dup2(fd, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  dup2(e >= 0 ? e : fd, 2);
}

static void arm_cpu(double seconds) {
  struct itimerval t = {};
  t.it_value.tv_sec = static_cast<long>(seconds);
  setitimer(ITIMER_PROF, &t, nullptr); // SIGPROF kills by default
}

static std::string tail_of(const std::string &file) {
  std::ifstream in(file);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  if (s.size() > 700)
    s = s.substr(s.size() - 700);
  for (char &ch : s)
    if (ch == '\n')
      ch = ' ';
  return s;
}

// Runs one choice sequence in a fresh child.
struct Attempt {
  bool failed = false;
  std::string msg, notes, known;
  std::vector<std::uint64_t> used;
};

static Attempt attempt_once(const Options &o, long chk,
                            const std::vector<std::uint64_t> &choices) {
  static Shared *sh = new_shared();
  sh->state = 1;
  sh->n = 0;
  sh->msg[0] = sh->notes[0] = sh->known[0] = 0;
  const std::string err = o.scratch + "/attempt.err";
  unlink(err.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(err);
    arm_cpu(case_cpu_limit);
    alarm(static_cast<unsigned>(case_wall_limit));
    Src src(choices, sh);
    Case c(src);
    std::string msg, known;
    attempt_shared = sh;
    note_hook = [](const std::string &n) {
      copy_str(attempt_shared->notes, sizeof attempt_shared->notes, n);
    };
    Outcome r = run_case(registry()[chk], src, c, &msg, &known);
    copy_str(sh->notes, sizeof sh->notes, c.notes());
    copy_str(sh->msg, sizeof sh->msg, msg);
    copy_str(sh->known, sizeof sh->known, known);
    sh->state = r == FAILED ? 2 : 3;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Attempt a;
  a.notes = sh->notes;
  a.msg = sh->msg;
  a.known = sh->known;
  a.used.assign(sh->choices, sh->choices + sh->n);
  if (sh->state == 2) {
    a.failed = true;
  } else if (sh->state == 1) { // died
    a.failed = !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
    std::ostringstream m;
    if (WIFSIGNALED(st)) {
      int sig = WTERMSIG(st);
      m << ((sig == SIGPROF || sig == SIGALRM)
                ? "the case did not finish (hang), signal "
                : "the code under test crashed, signal ")
        << sig;
    } else {
      m << "the code under test ended the process, status "
        << WEXITSTATUS(st);
    }
    m << "; stderr: " << tail_of(err);
    a.msg = m.str();
  }
  return a;
}

static Attempt attempt(const Options &o, long chk,
                       const std::vector<std::uint64_t> &choices) {
  Attempt a;
  for (int k = 0; k < registry()[chk].attempts; ++k) {
    a = attempt_once(o, chk, choices);
    if (a.failed)
      break;
  }
  return a;
}

static bool simpler(const std::vector<std::uint64_t> &a,
                    const std::vector<std::uint64_t> &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}

static std::vector<std::uint64_t> shrink(const Options &o, long chk,
                                         std::vector<std::uint64_t> best,
                                         double budget_s, long *tries) {
  const double end = now() + budget_s;
  auto accept = [&](const std::vector<std::uint64_t> &cand) {
    if (now() > end)
      return false;
    ++*tries;
    Attempt a = attempt(o, chk, cand);
    if (!a.failed)
      return false;
    std::vector<std::uint64_t> c = a.used.size() < cand.size() ? a.used : cand;
    while (!c.empty() && c.back() == 0)
      c.pop_back();
    if (simpler(c, best)) {
      best = c;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && now() < end) {
    improved = false;
    // delete chunks
    for (std::size_t len = best.size() / 2; len >= 1 && now() < end; len /= 2) {
      for (std::size_t pos = 0; pos + len <= best.size() && now() < end;) {
        std::vector<std::uint64_t> cand = best;
        cand.erase(cand.begin() + pos, cand.begin() + pos + len);
        if (accept(cand))
          improved = true;
        else
          pos += len;
      }
    }
    // zero chunks, then lower single values
    for (std::size_t len : {8, 4, 2, 1}) {
      for (std::size_t pos = 0; pos + len <= best.size() && now() < end;
           pos += len) {
        std::vector<std::uint64_t> cand = best;
        bool change = false;
        for (std::size_t k = pos; k < pos + len; ++k) {
          change = change || cand[k] != 0;
          cand[k] = 0;
        }
        if (change && accept(cand))
          improved = true;
      }
    }
    for (std::size_t pos = 0; pos < best.size() && now() < end; ++pos) {
      std::uint64_t lo = 0, hi = best[pos];
      int steps = 0;
      while (lo < hi && steps++ < 24 && now() < end) {
        std::uint64_t mid = lo + (hi - lo) / 2;
        std::vector<std::uint64_t> cand = best;
        if (pos >= cand.size())
          break;
        cand[pos] = mid;
        if (accept(cand)) {
          improved = true;
          if (pos >= best.size())
            break;
          hi = best[pos];
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}

struct Tally {
  long evals = 0, discards = 0, nontrivial = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, long> labels;
  std::map<std::string, long> known;
  std::vector<std::string> samples;
};

// worker results are a stream of records in a file
static void write_record(FILE *f, char kind, long check,
                         const std::string &payload) {
  std::fputc(kind, f);
  std::fwrite(&check, sizeof check, 1, f);
  std::size_t n = payload.size();
  std::fwrite(&n, sizeof n, 1, f);
  std::fwrite(payload.data(), 1, n, f);
}

static void read_records(const std::string &file, std::vector<Tally> *t) {
  FILE *f = std::fopen(file.c_str(), "rb");
  if (!f)
    return;
  int kind;
  while ((kind = std::fgetc(f)) != EOF) {
    long chk;
    std::size_t n;
    if (std::fread(&chk, sizeof chk, 1, f) != 1 ||
        std::fread(&n, sizeof n, 1, f) != 1 || n > (1u << 20))
      break;
    std::string p(n, 0);
    if (n && std::fread(&p[0], 1, n, f) != n)
      break;
    Tally &y = (*t)[static_cast<std::size_t>(chk)];
    switch (kind) {
    case 'e':
      ++y.evals;
      break;
    case 'd':
      ++y.evals;
      ++y.discards;
      break;
    case 'n': {
      std::uint64_t h;
      std::memcpy(&h, p.data(), sizeof h);
      ++y.nontrivial;
      y.distinct.insert(h);
      break;
    }
    case 'l':
      ++y.labels[p];
      break;
    case 'k':
      ++y.known[p];
      break;
    case 's':
      if (y.samples.size() < 3)
        y.samples.push_back(p);
      break;
    }
  }
  std::fclose(f);
}

static long case_count(const Options &o, const Check &c) {
  double n = static_cast<double>(o.tier == "thorough" ? c.thorough : c.quick);
  return std::max(1L, static_cast<long>(n * o.scale));
}

static void worker(const Options &o, int w, long from_check, long from_index,
                   Shared *sh, const std::vector<bool> &dead, double end) {
  child_setup(o.scratch + "/w" + std::to_string(w) + ".err");
  FILE *out =
      std::fopen((o.scratch + "/w" + std::to_string(w) + ".rec").c_str(), "ab");
  for (long k = from_check; k < static_cast<long>(registry().size()); ++k) {
    const Check &chk = registry()[static_cast<std::size_t>(k)];
    if (dead[static_cast<std::size_t>(k)])
      continue;
    const long n = case_count(o, chk);
    long kept = 0;
    for (long idx = (k == from_check ? from_index : w); idx < n;
         idx += o.workers) {
      if (now() > end)
        break;
      sh->check = k;
      sh->index = idx;
      sh->n = 0;
      sh->started = now();
      sh->state = 1;
      Src src(case_seed(o.seed, chk.name, idx), sh);
      Case c(src);
      std::string msg, known;
      arm_cpu(case_cpu_limit);
      Outcome r = run_case(chk, src, c, &msg, &known);
      arm_cpu(0);
      if (r == FAILED) {
        copy_str(sh->msg, sizeof sh->msg, msg);
        copy_str(sh->notes, sizeof sh->notes, c.notes());
        sh->state = 2;
        std::fclose(out);
        _exit(0);
      }
      write_record(out, r == DISCARDED ? 'd' : 'e', k, "");
      if (r == KNOWN)
        write_record(out, 'k', k, known + " " + msg);
      if (r == PASS && c.is_nontrivial()) {
        std::uint64_t h = hash_bytes(
            src.choices().data(), src.choices().size() * sizeof(std::uint64_t));
        write_record(out, 'n', k,
                     std::string(reinterpret_cast<char *>(&h), sizeof h));
        if (kept < 1) {
          ++kept;
          std::string s = c.notes();
          if (s.size() > 600)
            s = s.substr(0, 600) + "..";
          write_record(out, 's', k, s);
        }
      }
      for (const auto &l : c.labels)
        write_record(out, 'l', k, l);
      std::fflush(out);
      sh->state = 0;
    }
  }
  sh->state = 3;
  std::fclose(out);
  _exit(0);
}

struct Failure {
  long check;
  long index;
  std::vector<std::uint64_t> choices;
  std::string msg;
};

static int do_replay(const Options &o) {
  std::ifstream in(o.replay);
  std::string line, name;
  std::vector<std::uint64_t> choices;
  while (std::getline(in, line)) {
    if (line.rfind("check ", 0) == 0)
      name = line.substr(6);
    if (line.rfind("choices", 0) == 0) {
      std::istringstream ss(line.substr(7));
      std::uint64_t v;
      while (ss >> v)
        choices.push_back(v);
    }
  }
  for (std::size_t k = 0; k < registry().size(); ++k) {
    if (registry()[k].name == name) {
      Attempt a = attempt(o, static_cast<long>(k), choices);
      std::cout << "check " << name << "\ninput " << a.notes << "\n"
                << (a.failed ? "FAILS: " : "passes ") << a.msg << "\n";
      return a.failed ? 1 : 0;
    }
  }
  std::cout << "no such check: " << name << "\n";
  return 2;
}

static int run_all(Options &o) {
  const double t0 = now();
  const double end = t0 + o.max_wall;
  const std::size_t nchk = registry().size();
  std::vector<bool> dead(nchk, false);
  if (!o.only.empty())
    for (std::size_t k = 0; k < nchk; ++k)
      dead[k] = registry()[k].name != o.only;

  std::set<std::string> listed;
  {
    std::ifstream in(o.known_file);
    std::string line;
    while (std::getline(in, line)) {
      // known: property=<id> finding=<fid> <text>
      if (line.rfind("known: property=" + o.property + " finding=", 0) == 0) {
        std::string rest =
            line.substr(("known: property=" + o.property + " finding=").size());
        listed.insert(rest.substr(0, rest.find(' ')));
      }
    }
  }

  std::vector<Shared *> sh;
  std::vector<pid_t> pid(static_cast<std::size_t>(o.workers));
  for (int w = 0; w < o.workers; ++w)
    sh.push_back(new_shared());
  auto start = [&](int w, long chk, long idx) {
    Shared *s = sh[static_cast<std::size_t>(w)];
    s->state = 0;
    std::fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
      worker(o, w, chk, idx, s, dead, end);
    pid[static_cast<std::size_t>(w)] = p;
  };
  for (int w = 0; w < o.workers; ++w)
    start(w, 0, w);

  std::vector<Failure> confirmed;
  long unreproduced = 0, shrink_tries = 0;
  std::vector<std::string> replay_paths;
  int running = o.workers;
  while (running > 0) {
    int st = 0;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      for (int w = 0; w < o.workers; ++w) {
        Shared *s = sh[static_cast<std::size_t>(w)];
        if (pid[static_cast<std::size_t>(w)] > 0 && s->state == 1 &&
            now() - s->started > case_wall_limit)
          kill(pid[static_cast<std::size_t>(w)], SIGALRM);
      }
      usleep(20000);
      continue;
    }
    int w = static_cast<int>(
        std::find(pid.begin(), pid.end(), p) - pid.begin());
    if (w >= o.workers)
      continue;
    pid[static_cast<std::size_t>(w)] = -1;
    Shared *s = sh[static_cast<std::size_t>(w)];
    if (s->state == 3) {
      --running;
      continue;
    }
    // a case failed, or killed its worker
    Failure f;
    f.check = s->check;
    f.index = s->index;
    f.choices.assign(s->choices, s->choices + s->n);
    f.msg = s->state == 2 ? s->msg : "crash";
    std::size_t k = static_cast<std::size_t>(f.check);
    if (!dead[k] && s->state != 0) {
      int ok = 0;
      for (int r = 0; r < 3; ++r)
        ok += attempt(o, f.check, f.choices).failed ? 1 : 0;
      if (ok == 3) {
        dead[k] = true;
        // stop everyone, report one violation per run: shrink it well
        for (int v = 0; v < o.workers; ++v)
          if (pid[static_cast<std::size_t>(v)] > 0) {
            kill(pid[static_cast<std::size_t>(v)], SIGKILL);
            waitpid(pid[static_cast<std::size_t>(v)], &st, 0);
          }
        std::vector<std::uint64_t> small =
            shrink(o, f.check, f.choices, o.tier == "thorough" ? 90 : 30,
                   &shrink_tries);
        int again = 0;
        for (int r = 0; r < 3; ++r)
          again += attempt(o, f.check, small).failed ? 1 : 0;
        if (again < 3)
          small = f.choices;
        Attempt a = attempt(o, f.check, small);
        mkdir(o.replay_dir.c_str(), 0755);
        const std::string path =
            o.replay_dir + "/" + o.property + "-" + registry()[k].name + ".txt";
        std::ofstream out(path);
        out << "property " << o.property << "\ncheck " << registry()[k].name
            << "\nseed " << o.seed << "\nindex " << f.index << "\nmessage "
            << a.msg << "\noriginal_message " << f.msg << "\ninput " << a.notes
            << "\nchoices";
        for (auto v : small)
          out << " " << v;
        out << "\n";
        out.close();
        f.msg = a.msg;
        confirmed.push_back(f);
        replay_paths.push_back(path);
        std::cout << "FAILED check " << registry()[k].name << ": " << a.msg
                  << "\n  input: " << a.notes << "\n";
        break;
      }
      ++unreproduced;
      std::cout << "note: a failure of " << registry()[k].name << " index "
                << f.index << " did not reproduce (" << ok << "/3): " << f.msg
                << "\n";
    }
    start(w, f.check, f.index + o.workers);
  }

  std::vector<Tally> t(nchk);
  for (int w = 0; w < o.workers; ++w)
    read_records(o.scratch + "/w" + std::to_string(w) + ".rec", &t);

  int rc = confirmed.empty() ? 0 : 1;
  for (const auto &path : replay_paths)
    std::cout << "VIOLATION property=" << o.property << " replay=" << path
              << "\n";
  std::set<std::string> printed;
  for (std::size_t k = 0; k < nchk; ++k)
    for (const auto &kv : t[k].known) {
      std::string id = kv.first.substr(0, kv.first.find(' '));
      if (printed.count(id))
        continue;
      printed.insert(id);
      if (listed.count(id)) {
        std::cout << "KNOWN-FINDING: property=" << o.property << " "
                  << kv.first << "\n";
      } else {
        const std::string path =
            o.replay_dir + "/" + o.property + "-" + id + ".txt";
        mkdir(o.replay_dir.c_str(), 0755);
        std::ofstream(path) << "property " << o.property << "\ncheck "
                            << registry()[k].name << "\nmessage " << kv.first
                            << "\n";
        std::cout << "VIOLATION property=" << o.property << " replay=" << path
                  << "\n";
        rc = 1;
      }
    }

  long evals = 0, distinct = 0;
  std::ostringstream per, rule, samples;
  rule << "Random choice sequences (seeded by VERIF_SEED, check and index) "
          "decoded by one generator per check; distinct = different choice "
          "sequences. ";
  bool first = true, first_s = true;
  bool timed_out = now() > end;
  for (std::size_t k = 0; k < nchk; ++k) {
    if (!o.only.empty() && registry()[k].name != o.only)
      continue;
    const Tally &y = t[k];
    evals += y.evals;
    distinct += static_cast<long>(y.distinct.size());
    rule << registry()[k].name << ": " << registry()[k].rule << " ";
    per << (first ? "" : ",") << json_str(registry()[k].name)
        << ":{\"planned\":" << case_count(o, registry()[k])
        << ",\"evaluations\":" << y.evals << ",\"discarded\":" << y.discards
        << ",\"nontrivial\":" << y.nontrivial
        << ",\"distinct_nontrivial\":" << y.distinct.size() << ",\"labels\":{";
    bool fl = true;
    for (const auto &kv : y.labels) {
      per << (fl ? "" : ",") << json_str(kv.first) << ":" << kv.second;
      fl = false;
    }
    per << "}}";
    first = false;
    for (const auto &s : y.samples) {
      samples << (first_s ? "" : ",") << json_str(registry()[k].name + ": " + s);
      first_s = false;
    }
  }
  if (!o.evidence.empty()) {
    std::ofstream ev(o.evidence);
    ev << "{\"property\":" << json_str(o.property)
       << ",\"tier\":" << json_str(o.tier) << ",\"seed\":" << o.seed
       << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << evals
       << ",\"distinct_nontrivial\":" << distinct
       << ",\"rule\":" << json_str(rule.str()) << ",\"samples\":["
       << samples.str() << "],\"checks\":{" << per.str()
       << "},\"unreproduced_failures\":" << unreproduced
       << ",\"shrink_attempts\":" << shrink_tries
       << ",\"wall_cap_reached\":" << (timed_out ? "true" : "false")
       << "},\"assumptions\":[" << o.assumption
       << "],\"wall_s\":" << (now() - t0)
       << ",\"violations\":" << confirmed.size() << "}\n";
  }
  std::cout << o.property << ": " << evals << " cases, " << distinct
            << " distinct non-trivial, " << confirmed.size()
            << " violation(s), " << (now() - t0) << " s"
            << (timed_out ? " (wall cap reached)" : "") << "\n";
  if (std::getenv("PBT_VERBOSE")) {
    for (std::size_t k = 0; k < nchk; ++k) {
      const Tally &y = t[k];
      std::cout << "  " << registry()[k].name << ": " << y.evals << " evals, "
                << y.discards << " discarded, " << y.nontrivial
                << " non-trivial, " << y.distinct.size() << " distinct;";
      for (const auto &kv : y.labels)
        std::cout << " " << kv.first << "=" << kv.second;
      std::cout << "\n";
    }
  }
  return rc;
}

} // namespace pbt

int main(int argc, char **argv) {
  pbt::Options o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--property")
      o.property = v;
    else if (a == "--tier")
      o.tier = v;
    else if (a == "--seed")
      o.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (a == "--evidence")
      o.evidence = v;
    else if (a == "--replay-dir")
      o.replay_dir = v;
    else if (a == "--replay")
      o.replay = v;
    else if (a == "--only")
      o.only = v;
    else if (a == "--scale")
      o.scale = std::atof(v.c_str());
    else if (a == "--max-wall")
      o.max_wall = std::atof(v.c_str());
    else if (a == "--workers")
      o.workers = std::atoi(v.c_str());
    else if (a == "--scratch")
      o.scratch = v;
    else if (a == "--known")
      o.known_file = v;
    else if (a == "--assumption")
      o.assumption = v;
  }
  if (o.scratch.empty()) {
    char tmpl[] = "/tmp/pbtXXXXXX";
    o.scratch = mkdtemp(tmpl);
  }
  std::sort(pbt::registry().begin(), pbt::registry().end(),
            [](const pbt::Check &a, const pbt::Check &b) {
              return a.name < b.name;
            });
  if (!o.replay.empty())
    return pbt::do_replay(o);
  return pbt::run_all(o);
}
