// C23: inputs are only read, and only during the call; the same calls give the same results.
#include <sys/mman.h>
#include <unistd.h>

#include "script.hpp"

namespace {
// Read-only pages right before (or after) an inaccessible one.
class PageInputs : public Inputs {
 public:
  PageInputs(Rng &r, Ctx &c) : r_(r), c_(c) { mode_ = (int)r.below(3); }
  ~PageInputs() { done(); }
  const void *put(const void *data, size_t size) override
  {
    size_t pg = (size_t)sysconf(_SC_PAGESIZE), n = (size + pg - 1) / pg * pg;
    if (!n) n = pg;
    Item it;
    it.len = n + 2 * pg;
    it.base = (uint8_t *)mmap(nullptr, it.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (it.base == MAP_FAILED) {
      fprintf(stderr, "HARNESS: mmap\n");
      _exit(3);
    }
    bool at_end = !r_.chance(25);
    it.p = at_end ? it.base + pg + n - size : it.base + pg;
    if (size % 8 == 0 && ((uintptr_t)it.p & 7)) it.p -= (uintptr_t)it.p & 7;
    memset(it.base + pg, 0xa5, n);
    if (size) memcpy(it.p, data, size);
    mprotect(it.base, pg, PROT_NONE);
    mprotect(it.base + pg + n, pg, PROT_NONE);
    mprotect(it.base + pg, n, PROT_READ);
    it.n = n;
    items_.push_back(it);
    c_.ev("inputs_protected");
    return it.p;
  }
  void done() override
  {
    size_t pg = (size_t)sysconf(_SC_PAGESIZE);
    for (auto &it : items_) {
      if (mode_ == 0) {
        // Gone: any later access is fatal.
        munmap(it.base, it.len);
      } else if (mode_ == 1) {
        // Not accessible until much later.
        mprotect(it.base, it.len, PROT_NONE);
        old_.push_back(it);
      } else {
        // Something else: any later use changes the results.
        mprotect(it.base + pg, it.n, PROT_READ | PROT_WRITE);
        memset(it.base + pg, 0x5c, it.n);
        old_.push_back(it);
      }
    }
    items_.clear();
    while (old_.size() > 400) {
      munmap(old_.front().base, old_.front().len);
      old_.erase(old_.begin());
    }
  }
  void release()
  {
    for (auto &it : old_) munmap(it.base, it.len);
    old_.clear();
  }

 private:
  struct Item {
    uint8_t *base, *p;
    size_t len, n;
  };
  Rng &r_;
  Ctx &c_;
  int mode_;
  std::vector<Item> items_, old_;
};

// Heap blocks of the exact size, compared after the call, overwritten and freed.
class HeapInputs : public Inputs {
 public:
  explicit HeapInputs(Ctx &c) : c_(c) {}
  ~HeapInputs() { done(); }
  const void *put(const void *data, size_t size) override
  {
    Item it = {(uint8_t *)malloc(size ? size : 1), Bytes((const uint8_t *)data, (const uint8_t *)data + size)};
    if (size) memcpy(it.p, data, size);
    items_.push_back(it);
    return it.p;
  }
  void done() override
  {
    bool same = true;
    for (auto &it : items_) {
      if (!it.copy.empty() && memcmp(it.p, it.copy.data(), it.copy.size())) same = false;
      if (!it.copy.empty()) memset(it.p, 0x5c, it.copy.size());
      free(it.p);
      c_.ev("inputs_compared");
    }
    items_.clear();
    if (!same) changed = true;
  }
  bool changed = false;

 private:
  struct Item {
    uint8_t *p;
    Bytes copy;
  };
  Ctx &c_;
  std::vector<Item> items_;
};
}  // namespace

PROPERTY(C23)
{
  Script s = random_script(c, r, false);
  c.log("%s", s.str().c_str());
  Player ref(s);
  while (ref.step()) {}
  auto compare = [&](Player &p, const char *how) {
    std::string d = trace_diff(p.trace, ref.trace);
    CHECK(d.empty(), "differs", "the results differ %s: %s", how, d.c_str());
    c.ev("runs_compared");
    c.ev("seis_compared", p.seis);
    c.ev("reports_compared", p.reports);
    c.ev("calls", p.calls);
  };
  {
    PageInputs in(r, c);
    Player p(s, &in);
    while (p.step()) {}
    compare(p, "with read-only inputs which are gone after the call");
    in.release();
  }
  {
    HeapInputs in(c);
    Player p(s, &in);
    while (p.step()) {}
    CHECK(!in.changed, "modified", "an input was modified");
    compare(p, "with inputs freed after the call");
  }
  c.seen(s.str());
  c.sample(s.str());
}
