// Runs a range of cases of one property. Every case is a function of (seed, property, index) only.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <exception>

#include "common.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" int __lsan_do_recoverable_leak_check(void);
#endif

std::vector<Prop> &registry();

static volatile long *g_progress;

static void on_prof(int)
{
  static const char msg[] = "HARNESS-HANG\n";
  if (write(2, msg, sizeof msg - 1)) {}
  _exit(97);
}

static std::string jstr(const std::string &s)
{
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') o += strf("\\%c", ch);
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += strf("\\u%04x", ch);
    else o += (char)ch;
  }
  return o + "\"";
}

int main(int argc, char **argv)
{
  std::string prop, out, progress;
  uint64_t seed = 1, from = 0, to = 1;
  int cpu = 60;
  int leak_every = 0;
  Ctx c;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from") from = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--to") to = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out") out = val();
    else if (a == "--progress") progress = val();
    else if (a == "--data") g_data_dir = val();
    else if (a == "--cpu") cpu = atoi(val().c_str());
    else if (a == "--leak-every") leak_every = atoi(val().c_str());
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--verbose") c.verbose = true;
    else {
      fprintf(stderr, "HARNESS: bad argument %s\n", a.c_str());
      return 3;
    }
  }
  CaseFn fn = nullptr;
  for (auto &p : registry())
    if (prop == p.id) fn = p.fn;
  if (!fn) {
    fprintf(stderr, "HARNESS: unknown property %s\n", prop.c_str());
    return 3;
  }
  c.property = prop;
  c.seed = seed;
  static long dummy;
  g_progress = &dummy;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) return 3;
    g_progress = (volatile long *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (g_progress == MAP_FAILED) return 3;
  }
  g_progress[0] = -1;
  signal(SIGPROF, on_prof);
  signal(SIGPIPE, SIG_IGN);
  struct V {
    uint64_t idx;
    std::string key, msg, trace;
  };
  std::vector<V> viol;
  uint64_t done = 0;
  for (uint64_t i = from; i < to && viol.size() < 10; i++) {
    c.case_idx = i;
    c.trace.clear();
    g_progress[0] = (long)i;
    struct itimerval tv = {{0, 0}, {cpu, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    Rng r(fnv(prop, seed * 0x9e3779b97f4a7c15ULL + i * 0x2545F4914F6CDD1DULL + 1));
    r.next();
    try {
      fn(c, r);
    } catch (const Violation &v) {
      viol.push_back({i, v.key, v.what(), c.trace});
      if (c.verbose) fprintf(stderr, "VIOLATED case %llu key=%s: %s\n", (unsigned long long)i, v.key.c_str(), v.what());
    } catch (const std::exception &e) {
      fprintf(stderr, "HARNESS: case %llu: %s\n", (unsigned long long)i, e.what());
      fflush(stderr);
      _exit(3);
    }
    done++;
    if (c.dirty && !viol.empty()) break;
#ifdef HAVE_ASAN
    if (leak_every && (i % (uint64_t)leak_every == 0 || i + 1 == to)) {
      if (__lsan_do_recoverable_leak_check()) {
        // The report is on stderr; the driver derives the key from it.
        fflush(stderr);
        _exit(98);
      }
    }
#endif
  }
  struct itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &off, nullptr);
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"done\":%llu,\"events\":{", (unsigned long long)done);
    bool first = true;
    for (auto &e : c.events) {
      fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(e.first).c_str(), (unsigned long long)e.second);
      first = false;
    }
    fprintf(f, "},\"distinct\":[");
    first = true;
    for (auto d : c.distinct) {
      fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)d);
      first = false;
    }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto &s : c.samples) {
      fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str());
      first = false;
    }
    fprintf(f, "],\"records\":{");
    first = true;
    for (auto &x : c.records) {
      fprintf(f, "%s\"%llu\":[\"%llx\",%s]", first ? "" : ",", (unsigned long long)x.first, (unsigned long long)fnv(x.second),
          jstr(x.second).c_str());
      first = false;
    }
    fprintf(f, "},\"violations\":[");
    first = true;
    for (auto &v : viol) {
      fprintf(f, "%s{\"case\":%llu,\"key\":%s,\"msg\":%s,\"trace\":%s}", first ? "" : ",",
          (unsigned long long)v.idx, jstr(v.key).c_str(), jstr(v.msg).c_str(), jstr(v.trace).c_str());
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  } else {
    for (auto &e : c.events) fprintf(stderr, "%s=%llu\n", e.first.c_str(), (unsigned long long)e.second);
    if (c.verbose)
      for (auto &x : c.records) fprintf(stderr, "record %llu: %s\n", (unsigned long long)x.first, x.second.c_str());
    for (auto &s : c.samples) fprintf(stderr, "sample: %s\n", s.c_str());
    for (auto &v : viol)
      fprintf(stderr, "VIOLATED case %llu key=%s: %s\n%s", (unsigned long long)v.idx, v.key.c_str(), v.msg.c_str(), v.trace.c_str());
  }
  fflush(stdout);
  return viol.empty() ? 0 : 10;
}
