// C12: the threaded signing plugin, under injected delays, spurious wake-ups, blocked and failed signing.
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <exception>
#include <mutex>
#include <thread>

#include "threads.hpp"

namespace {
const int kBuffer = 60;  // Documented length of the plugin's buffers.
// Attempts to hand over a hash (counted before), and those refused, fetched or given up (counted after).
std::atomic<int> g_begun, g_ended;

struct Ev {
  uint64_t seq;
  int who;
  char what;
};

// What one thread of the workload observes. Merged when all have ended.
struct Worker {
  int id;
  Rng r;
  std::vector<Ev> evs;
  std::map<std::string, uint64_t> counts;
  std::exception_ptr err;
  Worker(int i, uint64_t seed) : id(i), r(seed) {}
  void ev(char what) { evs.push_back({thr::seq.fetch_add(1, std::memory_order_relaxed), id, what}); }
};

// A session of the plugin, with the hashes it has to return signatures of.
struct Handle {
  void *h = nullptr;
  const Key *key;
  std::deque<Bytes> due;
  size_t hash_size = 0;
};

std::atomic<uint64_t> g_unique;
Bytes unique_hash(Rng &r, size_t n)
{
  Bytes b = r.bytes(n);
  uint64_t u = g_unique.fetch_add(1, std::memory_order_relaxed);
  memcpy(b.data(), &u, 8);
  return b;
}

void do_sign(Worker &w, Handle &h, size_t size, bool size_ok)
{
  Bytes b = unique_hash(w.r, size);
  int ended = g_ended.load(std::memory_order_relaxed);
  g_begun.fetch_add(1, std::memory_order_relaxed);
  Bytes copy = b;
  SignedVideoReturnCode rc = sv_signing_plugin_sign(h.h, copy.data(), copy.size());
  std::fill(copy.begin(), copy.end(), 0xee);
  if (rc == SV_OK) {
    h.due.push_back(b);
    w.ev('s');
    w.counts["hashes_accepted"]++;
    return;
  }
  int most = g_begun.load(std::memory_order_relaxed) - 1 - ended;  // No more than this were outstanding when it was refused.
  g_ended.fetch_add(1, std::memory_order_relaxed);
  CHECK(rc == SV_NOT_SUPPORTED, "sign-rc", "handing over a hash returned %d", rc);
  CHECK(!size_ok || most >= kBuffer, "refused", "a hash was refused with only %d outstanding", most);
  w.counts[size_ok ? "refused_full" : "refused_size"]++;
  w.ev('r');
}

// Returns whether something was fetched.
bool do_get(Worker &w, Handle &h)
{
  uint8_t sig[2048];
  size_t n = 0;
  SignedVideoReturnCode err = SV_OK;
  bool with_err = thr::fail_pct > 0 || !w.r.chance(3);
  bool got = sv_signing_plugin_get_signature(h.h, sig, sizeof sig, &n, with_err ? &err : nullptr);
  if (got) {
    CHECK(!h.due.empty(), "signature-unasked", "a signature was returned although none is due");
    CHECK(n > 0 && n <= sizeof sig, "signature-size", "size %zu", n);
    CHECK(!thr::fails(h.due.front().data(), h.due.front().size()), "signature-of-failed", "got a signature although signing of this hash failed");
    if (!verify_sig(h.key->pub, h.due.front(), Bytes(sig, sig + n))) {
      size_t at = 0;
      for (; at < h.due.size(); at++)
        if (verify_sig(h.key->pub, h.due[at], Bytes(sig, sig + n))) break;
      if (at < h.due.size()) fail("signature-order", "the signature of hash %zu in line was returned first", at);
      fail("signature-foreign", "the returned signature is not of a hash of this session");
    }
    h.due.pop_front();
    g_ended.fetch_add(1, std::memory_order_relaxed);
    w.counts["signatures_checked"]++;
    w.ev('g');
    return true;
  }
  if (with_err && err != SV_OK) {
    CHECK(!h.due.empty(), "error-unasked", "error %d although no signature is due", err);
    CHECK(err == SV_EXTERNAL_ERROR && thr::fails(h.due.front().data(), h.due.front().size()), "signing-error", "error %d for a hash which could be signed", err);
    h.due.pop_front();
    g_ended.fetch_add(1, std::memory_order_relaxed);
    w.counts["signing_errors"]++;
    w.ev('e');
    return true;
  }
  w.counts["empty_polls"]++;
  return false;
}

void drain(Worker &w, Handle &h)
{
  for (int i = 0; !h.due.empty(); i++) {
    if (do_get(w, h)) {
      i = 0;
      continue;
    }
    CHECK(i < 60000, "signature-lost", "%zu signatures never arrived", h.due.size());
    usleep(i < 50 ? 50 : 1000);
  }
  // Nothing more may come.
  CHECK(!do_get(w, h), "signature-extra", "more came than was asked for");
}

void rethrow(std::vector<Worker> &ws)
{
  for (auto &w : ws)
    if (w.err) std::rethrow_exception(w.err);
}

// The same hash can be handed over |same| times.
void merge(Ctx &c, std::vector<Worker> &ws, const std::string &desc, int same = 1)
{
  std::vector<Ev> all;
  for (auto &w : ws) {
    for (auto &k : w.counts) c.ev(k.first, k.second);
    all.insert(all.end(), w.evs.begin(), w.evs.end());
  }
  // The log of the signing operations.
  std::map<Bytes, int> times;
  for (auto &s : thr::signed_log()) {
    times[s.hash]++;
    all.push_back({s.seq, -1, s.ok ? 'S' : 'F'});
    c.ev("signing_operations");
  }
  for (auto &t : times) CHECK(t.second <= same, "signed-twice", "a hash was signed %d times", t.second);
  std::sort(all.begin(), all.end(), [](const Ev &a, const Ev &b) { return a.seq < b.seq; });
  std::string order;
  for (auto &e : all) order += strf("%d%c", e.who, e.what);
  c.seen(desc + order);
  c.ev("events", all.size());
  c.sample(desc + " " + order.substr(0, 120));
}

struct Mode {
  bool central, with_threads;
  bool ec;
  int key;
};

int init_central(Rng &r, const Key &k)
{
  if (r.chance(30)) {
    // The deprecated form.
    signature_info_t info = {};
    info.private_key = (void *)k.pem.data();
    info.private_key_size = k.pem.size();
    return sv_signing_plugin_init(&info);
  }
  pem_pkey_t p = {(void *)k.pem.data(), k.pem.size()};
  return sv_signing_plugin_init_new(&p);
}

void settings(Ctx &c, Rng &r, std::string &desc)
{
  thr::begin(r.next());
  thr::jitter = r.chance(20) ? 0 : r.range(5, 60);
  static const int us[] = {0, 50, 500, 3000};
  thr::sign_us = us[r.below(4)];
  thr::fail_pct = 0;
  g_begun = g_ended = 0;
  desc += strf("jitter=%d sign=%dus ", (int)thr::jitter, (int)thr::sign_us);
}

// The plugin by itself.
void plugin_case(Ctx &c, Rng &r)
{
  std::string desc = "plugin ";
  settings(c, r, desc);
  bool central = r.chance(60);
  bool mixed = r.chance(15);  // Hash sizes
  bool ec = mixed || r.chance(70);
  thr::fail_pct = r.chance(30) ? r.range(5, 60) : 0;
  size_t size = ec ? (size_t)(r.chance(50) ? 32 : 64) : 32;
  int n = r.range(1, 5);
  bool stall = r.chance(25);
  bool flood = stall || r.chance(25);
  desc += strf("%s %d sessions fail=%d%s%s%s ", central ? "central" : "local", n, (int)thr::fail_pct, mixed ? " mixed" : "", stall ? " stalled" : "", flood ? " flood" : "");
  c.log("%s", desc.c_str());
  int ki = r.range(0, key_count(ec) - 1);
  if (central) CHECK(init_central(r, key_get(ec, ki)) == 0, "plugin-init", "the plugin could not be initialised");
  if (central && r.chance(20)) CHECK(init_central(r, key_get(ec, ki)) != 0, "plugin-init-twice", "initialised twice");
  size_t fixed = mixed ? (size_t)(r.chance(50) ? 32 : 64) : size;
  if (mixed && central) {
    // The first hash decides the size for all.
    std::vector<Worker> first{Worker(99, r.next())};
    Handle h;
    h.key = &key_get(ec, ki);
    h.h = sv_signing_plugin_session_setup(nullptr, 0);
    CHECK(h.h, "setup", "no session");
    do_sign(first[0], h, fixed, true);
    drain(first[0], h);
    sv_signing_plugin_session_teardown(h.h);
  }
  std::vector<Worker> ws;
  for (int i = 0; i < n; i++) ws.emplace_back(i, r.next());
  if (stall) thr::blocked = true;
  std::atomic<int> ready{0};
  auto body = [&](Worker &w, int rounds) {
    for (int round = 0; round < rounds; round++) {
      Handle h;
      h.key = &key_get(ec, central ? ki : w.r.range(0, key_count(ec) - 1));
      h.h = sv_signing_plugin_session_setup(central && w.r.chance(50) ? nullptr : h.key->pem.data(), h.key->pem.size());
      CHECK(h.h, "setup", "no session");
      w.ev('<');
      size_t mine = mixed && w.r.chance(50) ? (size_t)(fixed == 32 ? 64 : 32) : fixed;
      if (!central) mine = fixed;
      bool size_ok = mine == fixed;
      bool done = false;
      int ops = flood ? w.r.range(30, 90) : w.r.range(1, 30);
      int sign_pct = flood ? 90 : w.r.range(20, 70);
      for (int k = 0; k < ops; k++) {
        if (w.r.chance(sign_pct)) do_sign(w, h, mine, size_ok);
        else do_get(w, h);
        thr::pause(10);
      }
      if (stall) {
        if (ready.fetch_add(1, std::memory_order_relaxed) + 1 >= n) thr::blocked.store(false, std::memory_order_relaxed);
      }
      if (w.r.chance(70) && !stall) {
        drain(w, h);
        done = true;
      } else if (stall && round == 0) {
        // Everything accepted while the signing was blocked has to come.
        thr::blocked.store(false, std::memory_order_relaxed);
        drain(w, h);
        done = true;
      }
      if (!done) {
        w.counts["closed_with_pending"] += !h.due.empty();
      }
      size_t left = h.due.size();
      sv_signing_plugin_session_teardown(h.h);
      g_ended.fetch_add((int)left, std::memory_order_relaxed);
      w.ev('>');
      w.counts["sessions"]++;
    }
  };
  bool threads = r.chance(75);
  int rounds = r.range(1, 3);
  if (threads) {
    std::vector<std::thread> ts;
    for (auto &w : ws)
      ts.emplace_back([&body, &w, rounds]() {
        try {
          body(w, rounds);
        } catch (...) {
          w.err = std::current_exception();
          thr::blocked.store(false, std::memory_order_relaxed);
        }
      });
    for (auto &t : ts) t.join();
  } else {
    // One thread and several sessions, where only some are polled.
    thr::blocked.store(false, std::memory_order_relaxed);
    std::vector<Handle> hs((size_t)n);
    for (auto &h : hs) {
      h.key = &key_get(ec, ki);
      h.h = sv_signing_plugin_session_setup(central ? nullptr : h.key->pem.data(), central ? 0 : h.key->pem.size());
      CHECK(h.h, "setup", "no session");
    }
    // The sessions in front never fetch anything before the others got all of theirs.
    size_t lazy = r.below((uint64_t)n);
    int ops = r.range(5, 50);
    for (int k = 0; k < ops; k++) {
      size_t i = r.below((uint64_t)n);
      if (r.chance(60)) do_sign(ws[i], hs[i], fixed, true);
      else if (i >= lazy) do_get(ws[i], hs[i]);
    }
    for (size_t i = lazy; i < (size_t)n; i++) drain(ws[i], hs[i]);
    c.ev("drained_behind_lazy", (uint64_t)n - lazy);
    for (size_t i = 0; i < lazy; i++)
      if (r.chance(50)) drain(ws[i], hs[i]);
    for (auto &h : hs) sv_signing_plugin_session_teardown(h.h);
  }
  if (central) sv_signing_plugin_exit(nullptr);
  rethrow(ws);
  CHECK(thr::live_threads() == 0, "thread-left", "%d signing threads are left", (int)thr::live_threads());
  merge(c, ws, desc);
}

// Many sessions of one central thread are closed while their hashes are being signed; others have to be served all the time.
void churn_case(Ctx &c, Rng &r)
{
  std::string desc = "churn ";
  settings(c, r, desc);
  if (thr::sign_us > 500) thr::sign_us = 500;
  int ki = r.range(0, key_count(true) - 1);
  CHECK(init_central(r, key_get(true, ki)) == 0, "plugin-init", "the plugin could not be initialised");
  int n = r.range(70, 150);
  desc += strf("%d ", n);
  c.log("%s", desc.c_str());
  std::vector<Worker> ws{Worker(0, r.next()), Worker(1, r.next())};
  Handle stay;
  stay.key = &key_get(true, ki);
  stay.h = sv_signing_plugin_session_setup(nullptr, 0);
  CHECK(stay.h, "setup", "no session");
  for (int i = 0; i < n; i++) {
    Handle h;
    h.key = stay.key;
    h.h = sv_signing_plugin_session_setup(nullptr, 0);
    CHECK(h.h, "setup", "no session %d", i);
    int k = r.range(1, 4);
    for (int j = 0; j < k; j++) do_sign(ws[1], h, 32, true);
    if (r.chance(60)) usleep((useconds_t)r.below(400));
    if (r.chance(30)) do_get(ws[1], h);
    sv_signing_plugin_session_teardown(h.h);
    g_ended.fetch_add((int)h.due.size(), std::memory_order_relaxed);
    ws[1].counts["closed_with_pending"] += !h.due.empty();
    ws[1].counts["sessions"]++;
    if (r.chance(20)) {
      do_sign(ws[0], stay, 32, true);
      if (r.chance(50)) drain(ws[0], stay);
    }
  }
  // All of the plugin's buffers are available again.
  size_t before = stay.due.size();
  for (int j = 0; j < kBuffer - (int)before; j++) do_sign(ws[0], stay, 32, true);
  drain(ws[0], stay);
  sv_signing_plugin_session_teardown(stay.h);
  sv_signing_plugin_exit(nullptr);
  CHECK(thr::live_threads() == 0, "thread-left", "%d signing threads are left", (int)thr::live_threads());
  merge(c, ws, desc);
  c.ev("churned");
}

// The library on top of the plugin.
struct Sess {
  SignCfg cfg;
  Stream video, out;
  size_t n_gops = 0, n_sei = 0, expect = 0;
  int sei_gop = 0;
  uint32_t last_counter = 0;
  bool complete = false, abandoned = false;
};

void take_sei(Worker &w, Sess &s, const Bytes &d)
{
  Sei p = parse_sei(s.cfg.codec, d);
  CHECK(p.ok, "sei-parse", "%s", p.err.c_str());
  CHECK(verify_sig(key_get(s.cfg.ec, s.cfg.key_idx).pub, digest(s.cfg.hash, p.doc), p.signature), "sei-signature", "SEI %zu has not the signature of its own content", s.n_sei);
  if (!(p.reserved & 0x40)) {
    CHECK(p.gop_counter > s.last_counter, "sei-order", "GOP counter %u after %u", p.gop_counter, s.last_counter);
    if (thr::fail_pct == 0) CHECK(p.gop_counter == s.last_counter + 1, "sei-missing", "GOP counter %u after %u", p.gop_counter, s.last_counter);
    s.last_counter = p.gop_counter;
  }
  Nalu n;
  n.data = d;
  n.sc = 4;
  n.type = classify(s.cfg.codec, d.data(), d.size());
  n.gop = n.type == 'G' ? -1 : s.sei_gop++;
  s.out.push_back(n);
  s.n_sei++;
  w.counts["seis_checked"]++;
  w.ev('S');
}

bool pull(Worker &w, Sess &s, signed_video_t *sv)
{
  bool any = false;
  for (;;) {
    size_t size = 0;
    SignedVideoReturnCode rc = signed_video_get_sei(sv, nullptr, &size, nullptr, nullptr, 0, nullptr);
    if (rc == SV_EXTERNAL_ERROR && thr::fail_pct > 0) {
      w.counts["sei_sign_errors"]++;
      any = true;
      continue;
    }
    CHECK(rc == SV_OK, "get-sei", "returned %d", rc);
    if (!size) return any;
    Bytes d(size);
    rc = signed_video_get_sei(sv, d.data(), &size, nullptr, nullptr, 0, nullptr);
    if (rc == SV_EXTERNAL_ERROR && thr::fail_pct > 0) continue;
    CHECK(rc == SV_OK, "get-sei", "returned %d", rc);
    d.resize(size);
    take_sei(w, s, d);
    any = true;
  }
}

void library_case(Ctx &c, Rng &r)
{
  std::string desc = "library ";
  settings(c, r, desc);
  bool central = r.chance(50);
  thr::fail_pct = r.chance(20) ? r.range(5, 50) : 0;
  int n = r.range(1, 4);
  SignCfg base = random_cfg(r);
  std::vector<Sess> ss((size_t)n);
  for (auto &s : ss) {
    s.cfg = random_cfg(r);
    s.cfg.parts = false;
    s.cfg.eos = false;
    if (central) s.cfg.ec = base.ec, s.cfg.key_idx = base.key_idx, s.cfg.hash = base.hash, s.cfg.set_hash = base.set_hash;
    GopShape sh;
    sh.min_gops = 2;
    sh.max_gops = 7;
    sh.max_frames = 4;
    sh.max_size = 40;
    sh.big = 0;
    s.video = random_video(r, s.cfg.codec, sh);
    desc += s.cfg.str() + " " + types_of(s.video) + " ";
  }
  desc += strf("%s fail=%d ", central ? "central" : "local", (int)thr::fail_pct);
  c.log("%s", desc.c_str());
  if (central) CHECK(init_central(r, key_get(base.ec, base.key_idx)) == 0, "plugin-init", "the plugin could not be initialised");
  std::vector<Worker> ws;
  for (int i = 0; i < n; i++) ws.emplace_back(i, r.next());
  auto body = [&](Worker &w, Sess &s) {
    Sv sv = make_signer(s.cfg);
    w.ev('<');
    bool golden = s.cfg.golden;
    if (golden) {
      SignedVideoReturnCode rc = signed_video_generate_golden_sei(sv.get());
      CHECK(rc == SV_OK || (thr::fail_pct > 0 && rc == SV_EXTERNAL_ERROR), "golden", "returned %d", rc);
      s.expect++;
    }
    size_t quit = w.r.chance(15) ? w.r.below(s.video.size() + 1) : s.video.size() + 1;
    bool first_i = true;
    for (size_t i = 0; i < s.video.size(); i++) {
      if (i == quit) {
        s.abandoned = true;
        w.counts["sessions_abandoned"]++;
        w.ev('x');
        return;
      }
      pull(w, s, sv.get());
      const Nalu &u = s.video[i];
      SignedVideoReturnCode rc;
      int64_t ts = 1000 + (int64_t)i;
      // A signature that arrives between pulling and adding makes the library ask for the SEI to be pulled first.
      for (int k = 0;; k++) {
        Bytes d = u.data;
        rc = signed_video_add_nalu_for_signing_with_timestamp(sv.get(), d.data(), d.size(), s.cfg.timestamps ? &ts : nullptr);
        if (rc == SV_OK) break;
        bool retry = rc == SV_NOT_SUPPORTED && pull(w, s, sv.get()) && k < 100;
        CHECK(retry, "add-nalu", "unit %zu returned %d", i, rc);
      }
      w.ev('a');
      if (u.type == 'I') {
        if (!first_i) s.expect++;
        first_i = false;
        s.n_gops++;
      }
      if (w.r.chance(30)) pull(w, s, sv.get());
      s.out.push_back(u);
    }
    if (thr::fail_pct == 0) {
      for (int i = 0; s.n_sei < s.expect; i++) {
        if (pull(w, s, sv.get())) continue;
        CHECK(i < 60000, "sei-lost", "%zu of %zu SEIs arrived", s.n_sei, s.expect);
        usleep(i < 50 ? 50 : 1000);
      }
      s.complete = true;
    }
    CHECK(s.n_sei <= s.expect, "sei-extra", "%zu SEIs, expected %zu", s.n_sei, s.expect);
    w.ev('>');
    w.counts["sessions"]++;
  };
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i]() {
      try {
        body(ws[(size_t)i], ss[(size_t)i]);
      } catch (...) {
        ws[(size_t)i].err = std::current_exception();
      }
    });
  for (auto &t : ts) t.join();
  if (central) sv_signing_plugin_exit(nullptr);
  rethrow(ws);
  CHECK(thr::live_threads() == 0, "thread-left", "%d signing threads are left", (int)thr::live_threads());
  for (auto &s : ss) {
    if (!s.complete) continue;
    ValRun run = validate(c, s.cfg, s.out);
    check_intact(c, s.n_gops, s.out, run);
    c.ev("streams_validated");
  }
  merge(c, ws, desc, n);  // Sessions may have equal SEIs.
}
}  // namespace

PROPERTY(C12)
{
  c.dirty = true;
  static bool loaded = false;
  for (int ec = 0; ec < 2 && !loaded; ec++)
    for (int i = 0; i < key_count(ec); i++) key_get(ec, i);
  loaded = true;
  if (r.chance(10)) churn_case(c, r);
  else if (r.chance(60)) plugin_case(c, r);
  else library_case(c, r);
  c.ev("spurious_wakeups", thr::spurious_wakeups());
}
