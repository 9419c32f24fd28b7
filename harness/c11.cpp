// C11: a failing allocation is reported, never fatal.
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <mutex>
#include <sstream>

#include "script.hpp"
extern "C" {
#include "includes/signed_video_helpers.h"
}
#ifdef HARNESS_THREADED
extern "C" {
#include "includes/signed_video_signing_plugin.h"
#include "signed_video_openssl_internal.h"
}
#endif

namespace {
struct Fault {
  std::mutex mu;
  bool armed = false;
  long count = 0;  // Allocations so far.
  enum Mode { NONE, ONE, FROM, SOME } mode = NONE;
  long at = 0;
  Rng r{1};
  long failed = 0;
  void *first_site = nullptr;
  std::vector<void *> sites;  // Per allocation, in the run without failures.
  std::unordered_set<void *> live;
  bool fails(void *site)
  {
    count++;
    if (mode == NONE) sites.push_back(site);
    bool f = mode == ONE ? count == at : mode == FROM ? count >= at : mode == SOME ? r.chance(5) : false;
    if (f) {
      failed++;
      if (!first_site) first_site = site;
    }
    return f;
  }
};
Fault g;
}  // namespace

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
void __real_free(void *);
void *__wrap_malloc(size_t n)
{
  if (!g.armed) return __real_malloc(n);
  std::lock_guard<std::mutex> l(g.mu);
  if (g.fails(__builtin_return_address(0))) return nullptr;
  void *p = __real_malloc(n);
  g.live.insert(p);
  return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
  if (!g.armed) return __real_calloc(a, b);
  std::lock_guard<std::mutex> l(g.mu);
  if (g.fails(__builtin_return_address(0))) return nullptr;
  void *p = __real_calloc(a, b);
  g.live.insert(p);
  return p;
}
void *__wrap_realloc(void *o, size_t n)
{
  if (!g.armed) return __real_realloc(o, n);
  std::lock_guard<std::mutex> l(g.mu);
  if (g.fails(__builtin_return_address(0))) return nullptr;
  void *p = __real_realloc(o, n);
  g.live.erase(o);
  if (p) g.live.insert(p);
  return p;
}
char *__wrap_strdup(const char *s)
{
  if (!g.armed) return __real_strdup(s);
  std::lock_guard<std::mutex> l(g.mu);
  if (g.fails(__builtin_return_address(0))) return nullptr;
  char *p = __real_strdup(s);
  g.live.insert(p);
  return p;
}
void __wrap_free(void *p)
{
  if (p) {
    std::lock_guard<std::mutex> l(g.mu);
    g.live.erase(p);
  }
  __real_free(p);
}
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t size);
}

namespace {
std::string where(void *site)
{
  char b[300] = "";
  __sanitizer_symbolize_pc(site, "%f", b, sizeof b);
  return b;
}

bool g_central;

void play(const Script &s, Player &p, Fault::Mode mode, long at, uint64_t seed)
{
  (void)s;
  g.count = 0;
  g.mode = mode;
  g.at = at;
  g.r = Rng(seed);
  g.failed = 0;
  g.first_site = nullptr;
  g.live.clear();
  if (mode == Fault::NONE) g.sites.clear();
  g.armed = true;
#ifdef HARNESS_THREADED
  // Signing is slow compared to the rest of a unit, let some signatures be done in time.
  Rng pause(seed);
  const Key &key = key_get(s.cfg.ec, s.cfg.key_idx);
  if (g_central) {
    Bytes pem(key.pem.begin(), key.pem.end());
    pem_pkey_t k = {};
    k.key = (decltype(k.key))pem.data();
    k.key_size = pem.size();
    p.trace.push_back(strf("init=%d", sv_signing_plugin_init_new(&k)));
  }
  while (p.step())
    if (pause.chance(50)) usleep((useconds_t)pause.below(600));
  if (g_central) sv_signing_plugin_exit(nullptr);
#else
  while (p.step()) {}
#endif
  g.armed = false;
}

// Generating a key: OK means that the key is where it should be.
void keys(Ctx &c, Rng &r)
{
  char dir[] = "/tmp/c11-XXXXXX";
  CHECK(mkdtemp(dir), "scratch", "no scratch directory");
  bool ec = r.chance(80), to_user = r.chance(60), to_dir = !to_user || r.chance(60);
  std::string file = std::string(dir) + (ec ? "/private_ecdsa_key.pem" : "/private_rsa_key.pem");
  std::vector<void *> sites;
  auto gen = ec ? signed_video_generate_ecdsa_private_key : signed_video_generate_rsa_private_key;
  for (long at = 0; at < 6; at++) {
    char *key = nullptr;
    size_t size = 0;
    unlink(file.c_str());
    g.count = g.failed = 0;
    g.mode = at ? Fault::ONE : Fault::NONE;
    g.at = at;
    g.first_site = nullptr;
    g.sites.clear();
    g.live.clear();
    g.armed = true;
    int rc = gen(to_dir ? dir : nullptr, to_user ? &key : nullptr, to_user ? &size : nullptr);
    g.armed = false;
    std::string k = key ? std::string(key, size) : "", f;
    free(key);
    {
      std::ifstream in(file);
      std::stringstream ss;
      ss << in.rdbuf();
      f = ss.str();
    }
    std::string site = g.first_site ? where(g.first_site) : "-";
    if (g.failed) c.ev("site:" + site);
    c.ev(g.failed ? "key_faults" : "keys");
    bool ok = (!to_user || k.find("BEGIN") != k.npos) && (!to_dir || f.find("BEGIN") != f.npos) && (!to_user || !to_dir || k == f);
    CHECK(rc == SV_OK ? ok : g.failed > 0, strf("key:%s", site.c_str()), "returned %d, %zu bytes to the user (%d), %zu bytes in the file (%d), a failure in %s", rc, k.size(), to_user, f.size(),
        to_dir, site.c_str());
    CHECK(g.live.empty(), strf("leak:%s", site.c_str()), "%zu allocations remain after a failure in %s", g.live.size(), site.c_str());
  }
  unlink(file.c_str());
  rmdir(dir);
}
}  // namespace

PROPERTY(C11)
{
#ifndef HARNESS_THREADED
  if (r.chance(4)) return keys(c, r);
#endif
  Script s = random_script(c, r, true);
#ifdef HARNESS_THREADED
  while (s.kind != Script::SIGN) s = random_script(c, r, true);
  g_central = r.chance(50);
  c.ev(g_central ? "central" : "local");
#endif
  c.log("%s", s.str().c_str());
  Player clean(s);
  clean.keep_reports = true;
  play(s, clean, Fault::NONE, 0, 1);
  long n = g.count;
  if (c.verbose) for (auto &t : clean.trace) fprintf(stderr, "clean %s\n", t.c_str());  // VERBOSE-TRACE
  CHECK(g.live.empty(), "leak-clean", "%zu allocations remain", g.live.size());
  std::vector<void *> sites = g.sites;
  c.ev("sessions");
  c.ev(strf("kind:%d", (int)s.kind));
  if (!n) return;
  std::map<void *, size_t> index;
  std::vector<std::vector<long>> by_site;
  for (long i = 0; i < n; i++) {
    auto it = index.emplace(sites[(size_t)i], by_site.size());
    if (it.second) by_site.emplace_back();
    by_site[it.first->second].push_back(i + 1);
  }
  int runs = c.thorough ? 80 : 40;
  for (int k = 0; k < runs; k++) {
    Fault::Mode mode = r.chance(75) ? Fault::ONE : r.chance(70) ? Fault::FROM : Fault::SOME;
    // Every site has the same chance, half of the time.
    long at = 1 + (long)r.below((uint64_t)n);
    if (r.chance(50)) {
      const auto &v = by_site[r.below(by_site.size())];
      at = v[r.below(v.size())];
    }
    Player p(s);
    p.may_fail = p.keep_reports = true;
    c.log("run %d mode %d at %ld of %ld", k, (int)mode, at, n);
    play(s, p, mode, at, r.next());
    if (!g.failed) {
#ifdef HARNESS_THREADED
      CHECK(g.live.empty(), "leak-none", "%zu allocations remain", g.live.size());
#endif
      continue;
    }
    if (c.verbose) for (auto &t : p.trace) fprintf(stderr, "run%d %s\n", k, t.c_str());
    c.ev("faults", (uint64_t)g.failed);
    std::string site = where(g.first_site);
    c.ev("site:" + site);
    c.seen(strf("%s|%d|%ld", s.str().c_str(), (int)mode, at));
    CHECK(g.live.empty(), strf("leak:%s", site.c_str()), "%zu allocations remain after a failure in %s", g.live.size(), site.c_str());
    // Errors that did not come without the fault.
    std::map<std::string, long> errs;
    for (auto &t : clean.trace) errs[t]++;
    bool told = false;
    for (auto &t : p.trace) told |= t.compare(0, 6, "report") && t.find("=-") != std::string::npos && --errs[t] < 0;
    std::string d = trace_diff(clean.trace, p.trace);
    c.ev(d.empty() ? "no_effect" : told ? "reported" : "silent");
    if (!d.empty() && !told && mode == Fault::ONE) {
      c.ev("silent:" + site);
      if (c.verbose) fprintf(stderr, "SILENT %s: %s\n", site.c_str(), d.c_str());
      // A report that is gone and nothing else.
      if (p.trace.size() + 1 == clean.trace.size()) {
        size_t x = 0;
        while (x < p.trace.size() && p.trace[x] == clean.trace[x]) x++;
        bool lost = !clean.trace[x].compare(0, 6, "report") && std::equal(p.trace.begin() + (long)x, p.trace.end(), clean.trace.begin() + (long)x + 1);
        CHECK(!lost, strf("lost:%s", site.c_str()), "a report is lost without an error, after a failure in %s\n%s", site.c_str(), clean.trace[x].c_str());
      }
    }
#ifndef HARNESS_THREADED
    if (s.kind == Script::SIGN && !told)
      CHECK(d.empty(), strf("sign-silent:%s", site.c_str()), "signing differs without an error after a failure in %s\n%s", site.c_str(), d.c_str());
#endif
    // As long as nothing has been returned to the user, the first verdict that differs is not a better one.
    size_t ig = 0;
    for (auto &t : p.trace) {
      if (t.compare(0, 6, "report")) {
        if (t.find("=-") != std::string::npos && std::find(clean.trace.begin(), clean.trace.end(), t) == clean.trace.end()) break;
        continue;
      }
      if (ig >= clean.got.size()) break;
      auto &a = p.got[ig], &b = clean.got[ig];
      ig++;
      if (a.after != b.after) break;
      c.ev("compared");
      if (b.auth == SV_AUTH_RESULT_NOT_OK)
        CHECK(a.auth != SV_AUTH_RESULT_OK, strf("ok:%s", site.c_str()), "after unit %zu the report is OK, without the failure in %s it is NOT_OK", a.after, site.c_str());
      if (b.acc_auth == SV_AUTH_RESULT_NOT_OK)
        CHECK(a.acc_auth != SV_AUTH_RESULT_OK, strf("acc-ok:%s", site.c_str()), "after unit %zu accumulated OK, without the failure in %s NOT_OK", a.after, site.c_str());
      if (a.auth != b.auth) break;
    }
  }
  c.sample(s.str() + strf(": %ld allocations", n));
}
