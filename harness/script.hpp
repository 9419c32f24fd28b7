// A session whose calls and inputs are all decided in advance, played step by step. Everything the user can observe is
// recorded, apart from the values of signatures.
#pragma once
#include "hostile.hpp"
#include "mangle.hpp"

// How the inputs of a call are provided, and what happens to them when the call has returned.
struct Inputs {
  virtual ~Inputs() {}
  virtual const void *put(const void *data, size_t size) = 0;
  virtual void done() = 0;
};

struct Script {
  enum Kind { SIGN, VALIDATE, HELP } kind = SIGN;
  SignCfg cfg;
  Stream units;
  std::vector<int64_t> ts;
  std::vector<std::vector<size_t>> cuts;  // Signing: ends of the parts but the last.
  std::string pubkey;  // Validation: key set by the user.
  std::set<size_t> resets;
  std::set<size_t> extra_reports;  // Validation: signed_video_get_authenticity_report after these units.
  Bytes attestation;
  std::string chain;
  std::string what;
  std::string str() const;
};
// |rsa|: only keys with which the same content gives the same signature.
Script random_script(Ctx &c, Rng &r, bool small, bool rsa = false);

class Player {
 public:
  Player(const Script &s, Inputs *in = nullptr) : s_(s), in_(in) {}
  bool step();  // Performs the next call(s) of one unit. False when there is nothing left.
  std::vector<std::string> trace;
  size_t calls = 0, seis = 0, reports = 0;
  bool may_fail = false;  // The session may fail to be created.
  std::vector<Report> got;  // All reports, if |keep_reports|.
  bool keep_reports = false;

 private:
  const Script &s_;
  Inputs *in_;
  Sv sv_;
  size_t at_ = 0;
  bool started_ = false, ended_ = false;
  const void *put(const void *d, size_t n) { return in_ ? in_->put(d, n) : d; }
  const char *str(const std::string &t) { return (const char *)put(t.c_str(), t.size() + 1); }
  void rc(const char *what, int v);
  void start();
  void end();
  void sign_unit(size_t i);
  void validate_unit(size_t i);
  void help(size_t i);
  void pull(const Nalu *peek);
  void prepend();
  void got_sei(const uint8_t *d, size_t n);
  void got_report(const signed_video_authenticity_t *a, size_t i);
};
// The first difference of two traces, or "".
std::string trace_diff(const std::vector<std::string> &a, const std::vector<std::string> &b);
