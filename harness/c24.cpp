// C24: generated keys are complete and usable, in memory and on file, and failures to write are reported.
#include <fcntl.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include "common.hpp"

// Everything the library does with files is confined to the scratch directory.
static bool g_confined = false;
static std::string g_scratch, g_outside;
static bool allowed(const char *p)
{
  if (!g_confined || !p) return true;
  std::string s = p;
  if (s[0] != '/') {
    // Relative to the scratch directory.
    if (s.find("..") == std::string::npos) return true;
  } else if (s.compare(0, g_scratch.size() + 1, g_scratch + "/") == 0 && s.find("..") == std::string::npos) {
    return true;
  }
  g_outside = s;
  errno = EACCES;
  return false;
}
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { return allowed(p) ? __real_fopen(p, m) : nullptr; }
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { return allowed(p) ? __real_fopen64(p, m) : nullptr; }
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { return allowed(p) ? __real_unlink(p) : -1; }
int __real_remove(const char *);
int __wrap_remove(const char *p) { return allowed(p) ? __real_remove(p) : -1; }
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b) { return allowed(a) && allowed(b) ? __real_rename(a, b) : -1; }
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int f, ...)
{
  va_list ap;
  va_start(ap, f);
  int mode = (f & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  return allowed(p) ? __real_open(p, f, mode) : -1;
}
}

namespace {
std::string read_file(const std::string &p)
{
  std::string s;
  FILE *f = __real_fopen(p.c_str(), "rb");
  if (!f) return "";
  char b[512];
  for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) s.append(b, n);
  fclose(f);
  return s;
}

EVP_PKEY *load(const std::string &pem)
{
  BIO *b = BIO_new_mem_buf(pem.data(), (int)pem.size());
  EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  return k;
}

void check_key(Ctx &c, const std::string &pem, bool ec, std::string &pub)
{
  EVP_PKEY *k = load(pem);
  CHECK(k != nullptr, "key-unreadable", "the generated key cannot be read (%zu bytes)", pem.size());
  int id = EVP_PKEY_get_base_id(k), bits = EVP_PKEY_get_bits(k);
  EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k, nullptr);
  int ok = EVP_PKEY_private_check(x), pair = EVP_PKEY_pairwise_check(x);
  EVP_PKEY_CTX_free(x);
  BIO *b = BIO_new(BIO_s_mem());
  PEM_write_bio_PUBKEY(b, k);
  char *p = nullptr;
  long n = BIO_get_mem_data(b, &p);
  pub.assign(p, (size_t)n);
  BIO_free(b);
  EVP_PKEY_free(k);
  CHECK(id == (ec ? EVP_PKEY_EC : EVP_PKEY_RSA), "key-type", "key of type %d", id);
  CHECK(bits >= (ec ? 256 : 2048), "key-size", "key of %d bits", bits);
  CHECK(ok == 1 && pair == 1, "key-invalid", "the key is not valid");
  c.ev("keys_checked");
}

void check_usable(Ctx &c, Rng &r, const std::string &pem, const std::string &pub)
{
  SignCfg cfg;
  cfg.codec = r.chance(50) ? SV_CODEC_H264 : SV_CODEC_H265;
  Sv sv(signed_video_create(cfg.codec));
  Bytes exact(pem.begin(), pem.end());
  SignedVideoReturnCode rc = signed_video_set_private_key_new(sv.get(), (const char *)exact.data(), exact.size());
  CHECK(rc == SV_OK, "key-refused", "the generated key was refused: %d", rc);
  GopShape sh;
  sh.min_gops = sh.max_gops = 2;
  sh.max_frames = 2;
  sh.max_size = 60;
  Stream v = random_video(r, cfg.codec, sh);
  SignedStream ss = sign_video_with(c, r, sv.get(), cfg, v);
  CHECK(!ss.seis.empty(), "no-sei", "nothing was signed");
  for (auto &s : ss.seis) {
    Sei p = parse_sei(cfg.codec, s.data);
    CHECK(p.ok && verify_sig(pub, digest("sha256", p.doc), p.signature), "signature", "a signature with the generated key does not verify");
  }
  ValRun run = validate(c, cfg, ss.s);
  check_intact(c, ss.gop_uids.size(), ss.s, run);
  c.ev("streams_validated");
}
}  // namespace

PROPERTY(C24)
{
  static std::set<std::string> all;
  char tmpl[] = "/tmp/svkeyXXXXXX";
  CHECK(mkdtemp(tmpl) != nullptr, "harness", "no scratch directory");
  g_scratch = tmpl;
  g_outside.clear();
  signal(SIGXFSZ, SIG_IGN);
  bool ec = r.chance(85);
  std::string name = ec ? "private_ecdsa_key.pem" : "private_rsa_key.pem";
  enum { MEM, FILE_, BOTH, EXISTING, NO_DIR, NOT_DIR, IS_DIR, FULL, LIMIT, EMPTY, INVALID, N };
  static const char *names[] = {"memory", "file", "both", "existing", "no dir", "not a dir", "path is a dir", "full", "limit", "empty", "invalid"};
  int kind = (int)r.below(N);
  if (kind >= NO_DIR && r.chance(30)) kind = (int)r.below(NO_DIR);
  c.ev(std::string("kind:") + names[kind]);
  std::string dir = g_scratch;
  if (r.chance(30)) {
    dir += "/" + std::string((size_t)r.range(1, 200), 'd');
    mkdir(dir.c_str(), 0700);
  }
  std::string path = dir + "/" + name;
  // Relative to where the process is.
  bool relative = r.chance(20);
  if (relative) {
    std::string rel = r.chance(30) ? "." : std::string((size_t)r.range(1, 3), 'e');
    mkdir((g_scratch + "/" + rel).c_str(), 0700);
    path = g_scratch + "/" + rel + "/" + name;
    if (rel == ".") path = g_scratch + "/" + name;
    dir = rel;
    c.ev("relative");
  }
  if (r.chance(40)) dir += "/";
  std::string old;
  if (kind == EXISTING || (kind == LIMIT && r.chance(40)) || (kind == BOTH && r.chance(20))) {
    old = std::string((size_t)r.range(1, 5000), 'x');
    FILE *f = __real_fopen(path.c_str(), "wb");
    fwrite(old.data(), 1, old.size(), f);
    fclose(f);
  }
  bool must_fail = false;
  switch (kind) {
    case NO_DIR: dir = g_scratch + "/none", path = dir + "/" + name, must_fail = true; break;
    case NOT_DIR: {
      FILE *f = __real_fopen((g_scratch + "/plain").c_str(), "wb");
      fclose(f);
      dir = g_scratch + "/plain", path = dir + "/" + name, must_fail = true;
      break;
    }
    case IS_DIR: mkdir(path.c_str(), 0700), must_fail = true; break;
    case FULL: CHECK(symlink("/dev/full", path.c_str()) == 0, "harness", "symlink"); must_fail = true; break;
    case EMPTY: dir = "", path = g_scratch + "/" + name; break;
    default: break;
  }
  bool use_mem = kind == MEM || kind == BOTH || (kind != FILE_ && r.chance(50));
  bool use_file = kind != MEM;
  int variant = (int)r.below(3);  // Specific API, the one to be deprecated
  char *key = (char *)1;
  size_t size = 12345;
  std::unique_ptr<char[]> d(new char[dir.size() + 1]);
  memcpy(d.get(), dir.c_str(), dir.size() + 1);
  const char *dp = use_file ? d.get() : nullptr;
  char **kp = use_mem ? &key : nullptr;
  size_t *sp = use_mem ? &size : nullptr;
  if (kind == INVALID) {
    dp = nullptr;
    if (r.chance(50)) kp = nullptr, sp = &size;
    else kp = &key, sp = nullptr;
    must_fail = true;
  } else if (use_file && !use_mem && r.chance(30)) {
    if (r.chance(50)) kp = &key;
    else sp = &size;
  }
  struct rlimit lim, lo;
  getrlimit(RLIMIT_FSIZE, &lim);
  lo = lim;
  if (kind == LIMIT) {
    // An EC key is 241 bytes and an RSA key 1.7 kB.
    lo.rlim_cur = r.below(ec ? 241 : 1600);
    must_fail = true;
  }
  CHECK(chdir(g_scratch.c_str()) == 0, "harness", "chdir");
  setrlimit(RLIMIT_FSIZE, &lo);
  g_confined = true;
  SignedVideoReturnCode rc;
  if (variant) rc = ec ? signed_video_generate_ecdsa_private_key(dp, kp, sp) : signed_video_generate_rsa_private_key(dp, kp, sp);
  else rc = signed_video_generate_private_key(ec ? SIGN_ALGO_ECDSA : SIGN_ALGO_RSA, dp, kp, sp);
  g_confined = false;
  setrlimit(RLIMIT_FSIZE, &lim);
  struct stat st;
  bool exists = lstat(path.c_str(), &st) == 0;
  std::string on_file = exists && S_ISREG(st.st_mode) ? read_file(path) : "";
  if (chdir("/tmp")) {}
  std::string rm = "rm -rf " + g_scratch;
  if (system(rm.c_str())) {}
  std::string what = strf("%s %s dir='%s' mem=%d api=%d", names[kind], ec ? "ec" : "rsa", dir.size() > 60 ? "long" : dir.c_str(), use_mem, variant);
  c.log("%s -> %d, file of %zu bytes", what.c_str(), rc, on_file.size());
  c.sample(what + strf(" -> %d", rc));
  CHECK(g_outside.empty(), "outside", "a file outside the given directory was accessed: %s", g_outside.c_str());
  c.seen(strf("%d %d %d %d %d %d %d %zu", kind, ec, use_mem, variant, (int)dir.size(), !old.empty(), (int)(lo.rlim_cur & 0xffff), old.size()));
  std::string mem;
  if (kp && sp && key && key != (char *)1) {
    if (rc == SV_OK) mem.assign(key, size);
    free(key);
  }
  if (must_fail) {
    CHECK(rc != SV_OK, strf("failure-not-reported:%s", names[kind]), "generation of a key reported success (%s)", what.c_str());
    CHECK(on_file.empty() || on_file == old, "partial-file", "a failed generation left a file of %zu bytes", on_file.size());
    c.ev("failures_reported");
    return;
  }
  CHECK(rc == SV_OK, "generate", "generation failed with %d (%s)", rc, what.c_str());
  std::string pub;
  if (use_file) {
    CHECK(!on_file.empty(), "no-file", "success without a file (%s)", what.c_str());
    check_key(c, on_file, ec, pub);
    c.ev("files_checked");
  }
  if (use_mem) {
    CHECK(!mem.empty(), "no-key", "success without a key");
    check_key(c, mem, ec, pub);
    if (use_file) CHECK(mem == on_file, "file-differs", "the key on file differs from the one returned");
  }
  const std::string &pem = use_mem ? mem : on_file;
  CHECK(all.insert(pem).second, "key-repeated", "the same key was generated twice");
  if (r.chance(40)) check_usable(c, r, pem, pub);
}
