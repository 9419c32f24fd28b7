// Shared infrastructure of the runtime monitors: PRNG, stream generation, signing and validation
// drivers that only use the public API of the library, an independent SEI parser / reference
// model, and the event/violation recorder.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" {
#include "includes/signed_video_auth.h"
#include "includes/signed_video_common.h"
#include "includes/signed_video_helpers.h"
#include "includes/signed_video_openssl.h"
#include "includes/signed_video_sign.h"
#include "includes/signed_video_signing_plugin.h"
}

typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // Uniform in [a, b].
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(int percent) { return (int)below(100) < percent; }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  Bytes bytes(size_t n)
  {
    Bytes b(n);
    for (size_t i = 0; i < n; i++) b[i] = (uint8_t)next();
    return b;
  }
};

uint64_t fnv(const void *data, size_t size, uint64_t h = 1469598103934665603ULL);
uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL);

// ---------------------------------------------------------------- Recorder
struct Violation : std::runtime_error {
  std::string key;
  Violation(const std::string &k, const std::string &msg) : std::runtime_error(msg), key(k) {}
};

struct Ctx {
  bool verbose = false;
  bool thorough = false;
  bool dirty = false;  // After a violation the process is in an unknown state and has to end.
  std::string property;
  uint64_t seed = 1;
  uint64_t case_idx = 0;
  std::map<std::string, uint64_t> events;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<uint64_t, std::string> records;  // Per case, what has to be the same in all builds.
  std::string trace;  // Description of the running case; written to the replay file on a violation.
  void ev(const std::string &name, uint64_t n = 1) { events[name] += n; }
  void seen(const std::string &what) { distinct.insert(fnv(what)); }
  void sample(const std::string &s)
  {
    if (samples.size() < 3) samples.push_back(s);
  }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void fail(const std::string &key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define CHECK(cond, key, ...) \
  do { \
    if (!(cond)) fail(key, __VA_ARGS__); \
  } while (0)
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hexs(const Bytes &b, size_t max = 64);

// ---------------------------------------------------------------- Keys
struct Key {
  std::string pem;  // Private key
  std::string pub;  // Public key
  bool ec;
};
const Key &key_get(bool ec, int idx);  // Fixed keys from /verif/data (4 EC and 3 RSA keys).
int key_count(bool ec);
bool verify_sig(const std::string &pub_pem, const Bytes &digest, const Bytes &sig);
Bytes digest(const std::string &algo, const uint8_t *data, size_t size);
inline Bytes digest(const std::string &algo, const Bytes &b) { return digest(algo, b.data(), b.size()); }
extern std::string g_data_dir;

// ---------------------------------------------------------------- NAL Units
// Types follow the characters of the |nalu_str| documentation in signed_video_auth.h.
struct Nalu {
  char type;  // I i P p S G z v _ o U
  Bytes data;  // As delivered, including start code if any.
  int sc;  // Start code length, 0, 3 or 4.
  int uid;  // Unique id of this unit in its original stream, -1 for foreign units.
  int gop;  // Index of the GOP the unit belongs to (SEIs: the GOP which they sign).
  Nalu() : type('U'), sc(0), uid(-1), gop(-1) {}
  bool picture() const { return type == 'I' || type == 'i' || type == 'P' || type == 'p'; }
  bool sv_sei() const { return type == 'S' || type == 'G'; }
  // The bytes from NALU header to the stop bit.
  Bytes core() const;
};
typedef std::vector<Nalu> Stream;
std::string types_of(const Stream &s);
// An independent classification of a NAL Unit, used to predict the type string.
char classify(SignedVideoCodec codec, const uint8_t *data, size_t size);

// Inserts emulation prevention bytes in a NALU core (header..stop byte).
Bytes add_epb(const Bytes &rbsp);
// Makes a NAL Unit of type |type| with a body of about |size| bytes.
Nalu make_nalu(Rng &r, SignedVideoCodec codec, char type, size_t size, int sc);
void set_start_code(Nalu &n, int sc);
// Gives the unit another start code and/or trailing zeros, which are no part of it.
void reform(Rng &r, Nalu &n, bool sc, bool zeros);

// ---------------------------------------------------------------- Signing configuration
struct SignCfg {
  SignedVideoCodec codec = SV_CODEC_H264;
  SignedVideoAuthenticityLevel level = SV_AUTHENTICITY_LEVEL_FRAME;
  bool ec = true;
  int key_idx = 0;
  std::string hash = "sha256";
  bool set_hash = false;  // Call signed_video_set_hash_algo even for the default.
  bool sei_epb = true;
  bool golden = false;
  bool golden_at_start = true;
  bool golden_late = false;  // Generated anywhere before the first GOP has ended.
  bool pubkey_in_sei = true;
  size_t max_sei = 0;
  unsigned recurrence = 0;  // 0: not set
  bool product = true;
  std::string pi[5] = {"hw", "fw", "serial", "manufacturer", "address"};
  bool timestamps = true;
  int api = 0;  // 0: get_sei with peek, 1: get_sei without peek, 2: get_nalu_to_prepend
  bool parts = false;  // Deliver NALUs in parts.
  bool eos = false;  // End the stream with signed_video_set_end_of_stream.
  std::set<int> eos_before;  // GOPs before which the stream is ended too; the session goes on.
  std::string str() const;
};
SignCfg random_cfg(Rng &r);
// Picks GOPs of |video| to end the stream before.
void random_eos(Rng &r, SignCfg &cfg, const Stream &video);

struct GopShape {
  int min_gops = 2, max_gops = 6;
  int max_frames = 6;  // P-frames per GOP
  int max_slices = 3;
  int max_size = 400;
  int big = 3;  // Percentage of videos with some large units.
  int longs = 0;  // Percentage of videos with some GOPs of more than 255 frames.
  bool extras = true;  // Non-picture NAL Units between frames.
  bool allow_invalid = true;  // Unparsable NAL Units
};
// A random unsigned stream of |n| GOPs, ending with an I-frame and a few more frames.
Stream random_video(Rng &r, SignedVideoCodec codec, const GopShape &shape);

struct SvDeleter {
  void operator()(signed_video_t *p) const { signed_video_free(p); }
};
typedef std::unique_ptr<signed_video_t, SvDeleter> Sv;

Sv make_signer(const SignCfg &cfg);
struct SignedStream {
  Stream s;  // With the SEIs at the positions instructed by the API.
  std::vector<int64_t> ts;  // Timestamp of each picture unit of the input (by input index).
  std::vector<Nalu> seis;  // All SEIs in the order of generation.
  std::vector<std::vector<int>> gop_uids;  // Per GOP (index), the uids of its picture units.
};
// Signs |video|. Any API failure is a violation.
SignedStream sign_video(Ctx &c, Rng &r, const SignCfg &cfg, const Stream &video);
SignedStream sign_video_with(Ctx &c, Rng &r, signed_video_t *sv, const SignCfg &cfg, const Stream &video);
// Delays SEIs randomly but keeps their order. |max_delay| in NAL Units.
Stream delay_seis(Rng &r, const Stream &s, int max_delay);

// ---------------------------------------------------------------- Validation
struct Report {
  size_t after;  // Index of the NAL Unit that produced the report.
  int auth;
  bool key_changed;
  int expected, received, pending;
  std::string vstr, nstr;
  int pubkey;
  bool has_ts;
  int64_t ts;
  // accumulated
  int acc_auth;
  bool acc_key_changed;
  unsigned acc_received, acc_validated, acc_pending;
  int acc_pubkey;
  bool acc_has_ts;
  int64_t first_ts, last_ts;
  std::string ver_sign, ver_this;
  std::string pi[5];
  bool pi_null[5];
  std::string str() const;
  bool operator==(const Report &o) const;
};
Report to_report(const signed_video_authenticity_t *a, size_t after);

struct ValRun {
  std::vector<int> rc;  // Return code per NAL Unit.
  std::vector<Report> reports;
  bool has_final = false;
  Report final_report;  // From signed_video_get_authenticity_report at the end.
  // Per delivered NAL Unit: sequence of statuses in the reports (last one at the end).
  std::vector<char> status;  // Last seen status, '-' if never seen in a report.
  std::vector<std::string> status_hist;
  std::vector<int> resolved_in;  // Index of the report where the status turned final, or -1.
  int missing_marks = 0;
};
// Feeds |s| to a validation session. The online checks which hold for any input are applied.
ValRun validate(Ctx &c, const SignCfg &cfg, const Stream &s, const char *pubkey = nullptr);
ValRun validate_with(Ctx &c, signed_video_t *sv, SignedVideoCodec codec, const Stream &s, size_t base = 0);
const char *auth_name(int a);
// Maps the report strings to the delivered units; see the documentation of |validation_str|.
void map_statuses(const Stream &s, ValRun &run);

// The oracle of a complete and unaltered stream, with all its SEIs in order.
void check_counters(Ctx &c, const Stream &s, const ValRun &run);
void check_intact(Ctx &c, size_t n_gops, const Stream &s, const ValRun &run);

// ---------------------------------------------------------------- SEI reference parser
struct Tlv {
  int tag;
  size_t off;  // Offset of the tag in the payload (EPB removed), relative to after reserved byte.
  Bytes val;
};
struct Sei {
  bool ok = false;
  std::string err;
  Bytes core;  // Header..stop byte, as delivered (after start code, trailing zeros removed).
  Bytes rbsp;  // Without emulation prevention.
  size_t payload_off = 0;  // Offset of the UUID in rbsp.
  size_t payload_size = 0;
  uint8_t reserved = 0;
  bool epb = false, golden = false;
  std::vector<Tlv> tlvs;
  Bytes doc;  // The signed document bytes (as hashed).
  size_t doc_len_in_core = 0;  // Length of document in core (for tampering)
  size_t sig_off_in_core = 0;  // Offset of first signature byte in core
  Bytes signature;
  // GENERAL
  bool has_general = false;
  int gen_version = 0;
  uint32_t gop_counter = 0;
  unsigned num_nalus = 0;
  int ver[3] = {0, 0, 0};
  bool has_ts = false;
  int64_t ts = 0;
  Bytes linked_hash, gop_hash;
  bool has_hash_list = false;
  Bytes hash_list;
  bool has_pubkey = false;
  std::string pubkey;
  bool has_product = false;
  std::string pi[5];
  bool has_crypto = false;
  std::string hash_algo;  // Name
  const Tlv *find(int tag) const
  {
    for (auto &t : tlvs)
      if (t.tag == tag) return &t;
    return nullptr;
  }
};
Sei parse_sei(SignedVideoCodec codec, const Bytes &data);
// Signs a digest the way the library's signing plugins do.
size_t sig_room(const Key &k);  // The size of the largest signature.
Bytes sign_digest(const Key &k, const Bytes &digest);
// Builds a SEI (with a 4 byte start code) of the given TLVs. If |key| is given, the signature TLV (which has to be the
// last one, or is added) is replaced by a correct signature. |epb|: apply emulation prevention.
Bytes build_sei(SignedVideoCodec codec, uint8_t reserved, std::vector<Tlv> tlvs, const Key *key, const std::string &algo, bool epb);
// Changes the version of the signing side in all SEIs of the stream and signs them again.
void set_version(Stream &s, const SignCfg &cfg, const int *ver);
// Adds |delta| to the GOP counter in all SEIs and signs them again, as in a later part of a long recording.
void renumber(Stream &s, const SignCfg &cfg, uint32_t delta);
// In a few cases, moves the wrap around of the GOP counter into the stream. Returns true if done.
bool maybe_wraparound(Ctx &c, Rng &r, Stream &s, const SignCfg &cfg, size_t gops, int percent = 8);
// The hashes of the format: reference (I-frame) and all other units.
Bytes unit_hash(const std::string &algo, const Bytes &core, const Bytes *ref);
extern const uint8_t kUuid[16];
enum { T_GENERAL = 1, T_PUBKEY = 2, T_PRODUCT = 3, T_HASHLIST = 4, T_SIGNATURE = 5, T_ARBITRARY = 6, T_CRYPTO = 7, T_VENDOR = 129 };

// Replaces the core bytes of a unit, keeping the start code.
void set_core(Nalu &n, const Bytes &core);

// ---------------------------------------------------------------- Case registry
typedef void (*CaseFn)(Ctx &, Rng &);
struct Prop {
  const char *id;
  CaseFn fn;
};
struct Register {
  Register(const char *id, CaseFn fn);
};
#define PROPERTY(ID) \
  static void case_##ID(Ctx &c, Rng &r); \
  static Register reg_##ID(#ID, case_##ID); \
  static void case_##ID(Ctx &c, Rng &r)
