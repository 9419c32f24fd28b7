// C22: sessions do not affect each other, neither interleaved in one thread nor in parallel threads.
#include <atomic>
#include <exception>
#include <thread>

#include "script.hpp"

PROPERTY(C22)
{
  static bool keys_loaded = false;
  if (!keys_loaded)
    for (int ec = 0; ec < 2; ec++)
      for (int i = 0; i < key_count(ec); i++) key_get(ec, i);
  keys_loaded = true;
  size_t n = (size_t)r.range(2, 8);
  std::vector<Script> scripts;
  std::string desc;
  bool same = r.chance(20);  // All sessions do the same.
  for (size_t k = 0; k < n; k++) {
    scripts.push_back(same && k ? scripts[0] : random_script(c, r, true));
    c.log("session %zu: %s", k, scripts.back().str().c_str());
    desc += scripts.back().str();
  }
  std::vector<std::unique_ptr<Player>> p;
#ifdef __SANITIZE_THREAD__
  bool parallel = true;
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
  bool parallel = true;
#else
  bool parallel = r.chance(40);
#endif
#else
  bool parallel = r.chance(40);
#endif
  for (auto &s : scripts) p.emplace_back(new Player(s));
  std::string order;
  if (parallel) {
    // A global clock shows how the sessions overlapped.
    std::atomic<int> waiting((int)n);
    std::vector<std::exception_ptr> ex(n);
    std::vector<std::thread> th;
    std::atomic<uint32_t> clk(0);
    std::vector<std::vector<uint32_t>> at(n);
    std::vector<uint64_t> sd;
    for (size_t k = 0; k < n; k++) sd.push_back(r.next());
    for (size_t k = 0; k < n; k++)
      th.emplace_back([&, k]() {
        Rng q(sd[k]);
        waiting--;
        while (waiting > 0) std::this_thread::yield();
        try {
          for (;;) {
            at[k].push_back(clk.fetch_add(1, std::memory_order_relaxed));
            if (!p[k]->step()) break;
            if (q.chance(20)) std::this_thread::yield();
          }
        } catch (...) {
          ex[k] = std::current_exception();
        }
      });
    for (auto &t : th) t.join();
    std::vector<char> o(clk);
    for (size_t k = 0; k < n; k++)
      for (auto x : at[k]) o[x] = (char)('0' + k);
    order.assign(o.begin(), o.end());
    for (auto &e : ex)
      if (e) std::rethrow_exception(e);
    c.ev("parallel");
  } else {
    std::vector<size_t> live;
    for (size_t k = 0; k < n; k++) live.push_back(k);
    while (!live.empty()) {
      size_t x = r.below(live.size());
      int burst = r.range(1, 3);
      bool more = true;
      order += (char)('0' + live[x]);
      while (burst-- && more) more = p[live[x]]->step();
      if (!more) live.erase(live.begin() + (long)x);
    }
    c.ev("interleaved");
  }
  size_t switches = 0;
  for (size_t i = 1; i < order.size(); i++) switches += order[i] != order[i - 1];
  c.ev("switches", switches);
  for (size_t k = 0; k < n; k++) {
    Player alone(scripts[k]);
    while (alone.step()) {}
    std::string d = trace_diff(p[k]->trace, alone.trace);
    CHECK(d.empty(), "differs", "session %zu differs from the same session alone (%s): %s", k, parallel ? "parallel" : "interleaved", d.c_str());
    c.ev("sessions_compared");
    c.ev("seis_compared", alone.seis);
    c.ev("reports_compared", alone.reports);
    c.ev("calls", alone.calls);
  }
  c.seen(desc + order);
  c.sample(strf("%zu sessions, %s, order %.120s", n, parallel ? "parallel" : "interleaved", order.c_str()));
}
