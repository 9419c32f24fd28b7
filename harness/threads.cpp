#ifdef HARNESS_THREADED
#include "threads.hpp"

#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <list>
#include <mutex>

#include <openssl/evp.h>

namespace thr {
std::atomic<int> jitter{0}, sign_us{0}, fail_pct{0};
std::atomic<bool> blocked{false};
std::atomic<uint64_t> seq{0};
static std::atomic<uint64_t> g_seed{0}, g_threads{0}, g_live{0}, g_spurious{0};

static std::mutex g_lock;  // Of the lists below.
static std::list<Thread *> g_list;

static Rng &rng()
{
  static thread_local Rng r(0);
  static thread_local uint64_t of = 0;
  static thread_local uint64_t id = 0;
  if (!id) id = 1 + g_threads.fetch_add(1, std::memory_order_relaxed);
  uint64_t s = g_seed.load(std::memory_order_relaxed);
  if (of != s) {
    of = s;
    r = Rng(s ^ (id * 0x9e3779b97f4a7c15ULL));
  }
  return r;
}

void begin(uint64_t seed)
{
  std::lock_guard<std::mutex> l(g_lock);
  for (auto *t : g_list) delete t;
  g_list.clear();
  g_seed = seed | 1;
  seq = 0;
  blocked = false;
}

void pause(int percent)
{
  Rng &r = rng();
  if (!r.chance(percent)) return;
  if (r.chance(60)) sched_yield();
  else usleep((useconds_t)r.below(r.chance(90) ? 60 : 1500));
}

bool fails(const uint8_t *hash, size_t size)
{
  int pct = fail_pct.load(std::memory_order_relaxed);
  return pct && (int)(fnv(hash, size) % 100) < pct;
}

std::vector<Signed> signed_log()
{
  std::lock_guard<std::mutex> l(g_lock);
  std::vector<Signed> all;
  for (auto *t : g_list) all.insert(all.end(), t->log.begin(), t->log.end());
  return all;
}
uint64_t live_threads() { return g_live; }
uint64_t spurious_wakeups() { return g_spurious; }

static thread_local Thread *t_self;

struct Start {
  void *(*fn)(void *);
  void *arg;
  Thread *t;
};
static void *start(void *p)
{
  Start s = *(Start *)p;
  delete (Start *)p;
  t_self = s.t;
  pause(jitter.load(std::memory_order_relaxed));
  void *ret = s.fn(s.arg);
  g_live.fetch_sub(1, std::memory_order_relaxed);
  return ret;
}

struct Mutex {
  pthread_mutex_t m;
};
struct Cond {
  pthread_cond_t c;
};
// Kept for ever: the plugin never clears its mutexes.
static std::list<Mutex> g_mutexes;
static std::list<Cond> g_conds;
static Mutex *mutex_new()
{
  std::lock_guard<std::mutex> l(g_lock);
  g_mutexes.emplace_back();
  pthread_mutex_init(&g_mutexes.back().m, nullptr);
  return &g_mutexes.back();
}
static Cond *cond_new()
{
  std::lock_guard<std::mutex> l(g_lock);
  g_conds.emplace_back();
  pthread_condattr_t a;
  pthread_condattr_init(&a);
  pthread_condattr_setclock(&a, CLOCK_MONOTONIC);
  pthread_cond_init(&g_conds.back().c, &a);
  pthread_condattr_destroy(&a);
  return &g_conds.back();
}
template <typename T> static T *get(void **p, T *(*make)())
{
  T *m = (T *)__atomic_load_n(p, __ATOMIC_ACQUIRE);
  if (m) return m;
  T *n = make();
  void *expected = nullptr;
  if (__atomic_compare_exchange_n(p, &expected, (void *)n, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return n;
  return (T *)expected;
}
static void wait_until(Cond *c, Mutex *m, int64_t us, bool &timeout)
{
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  timeout = pthread_cond_timedwait(&c->c, &m->m, &ts) != 0;
}
static int64_t now_us()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (int64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
}  // namespace thr

using namespace thr;

extern "C" {
void g_mutex_init(void **m) { *m = mutex_new(); }
void g_mutex_clear(void **m) { *m = nullptr; }
void g_mutex_lock(void **m)
{
  pause(jitter.load(std::memory_order_relaxed));
  pthread_mutex_lock(&get(m, mutex_new)->m);
}
void g_mutex_unlock(void **m)
{
  pthread_mutex_unlock(&get(m, mutex_new)->m);
  pause(jitter.load(std::memory_order_relaxed));
}
int g_mutex_trylock(void **m) { return pthread_mutex_trylock(&get(m, mutex_new)->m) == 0; }
void g_cond_init(void **c) { *c = cond_new(); }
void g_cond_clear(void **c) { *c = nullptr; }
void g_cond_signal(void **c) { pthread_cond_signal(&get(c, cond_new)->c); }
void g_cond_broadcast(void **c) { pthread_cond_broadcast(&get(c, cond_new)->c); }
void g_cond_wait(void **c, void **m)
{
  if (rng().chance(jitter.load(std::memory_order_relaxed) / 2)) {
    // Spurious wake-ups are allowed.
    bool timeout;
    g_spurious.fetch_add(1, std::memory_order_relaxed);
    wait_until(get(c, cond_new), get(m, mutex_new), now_us() + (int64_t)rng().below(800), timeout);
    return;
  }
  pthread_cond_wait(&get(c, cond_new)->c, &get(m, mutex_new)->m);
}
int g_cond_wait_until(void **c, void **m, int64_t end_time)
{
  if (rng().chance(jitter.load(std::memory_order_relaxed) / 2)) {
    bool timeout;
    g_spurious.fetch_add(1, std::memory_order_relaxed);
    wait_until(get(c, cond_new), get(m, mutex_new), std::min(end_time, now_us() + (int64_t)rng().below(800)), timeout);
    return !timeout || now_us() < end_time;
  }
  bool timeout;
  wait_until(get(c, cond_new), get(m, mutex_new), end_time, timeout);
  return !timeout;
}
void *g_thread_try_new(const char *, void *(*fn)(void *), void *arg, void **)
{
  Thread *t = new Thread;
  {
    std::lock_guard<std::mutex> l(g_lock);
    g_list.push_back(t);
  }
  pthread_t *p = new pthread_t;
  g_live++;
  if (pthread_create(p, nullptr, start, new Start{fn, arg, t})) {
    delete p;
    g_live--;
    return nullptr;
  }
  return p;
}
void *g_thread_new(const char *n, void *(*fn)(void *), void *arg) { return g_thread_try_new(n, fn, arg, nullptr); }
void *g_thread_join(void *t)
{
  void *ret = nullptr;
  pthread_join(*(pthread_t *)t, &ret);
  delete (pthread_t *)t;
  return ret;
}
void g_thread_unref(void *t)
{
  pthread_detach(*(pthread_t *)t);
  delete (pthread_t *)t;
}

int __real_EVP_PKEY_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen, const unsigned char *tbs, size_t tbslen);
int __wrap_EVP_PKEY_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen, const unsigned char *tbs, size_t tbslen)
{
  if (!sig || !t_self) return __real_EVP_PKEY_sign(ctx, sig, siglen, tbs, tbslen);
  int us = sign_us.load(std::memory_order_relaxed);
  if (us) usleep((useconds_t)rng().below((uint64_t)us + 1));
  for (int i = 0; i < 100000 && blocked.load(std::memory_order_relaxed); i++) usleep(100);
  Signed s{seq.fetch_add(1, std::memory_order_relaxed), Bytes(tbs, tbs + tbslen), false};
  int rc = fails(tbs, tbslen) ? 0 : __real_EVP_PKEY_sign(ctx, sig, siglen, tbs, tbslen);
  s.ok = rc > 0;
  t_self->log.push_back(s);
  return rc;
}
}
#endif
