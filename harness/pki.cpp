#include "pki.hpp"

#include <openssl/ec.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>

static EVP_PKEY *load(int idx, bool ec = true)
{
  const Key &k = key_get(ec, idx);
  BIO *b = BIO_new_mem_buf(k.pem.data(), (int)k.pem.size());
  EVP_PKEY *p = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  return p;
}

X509 *make_cert(EVP_PKEY *subject_key, const CertSpec &s, EVP_PKEY *issuer_key, X509 *issuer)
{
  X509 *x = X509_new();
  X509_set_version(x, 2);
  static long number = 100;
  ASN1_INTEGER_set(X509_get_serialNumber(x), number++);
  ASN1_TIME_set_string(X509_getm_notBefore(x), "20200101000000Z");
  ASN1_TIME_set_string(X509_getm_notAfter(x), s.expired ? "20210101000000Z" : "20990101000000Z");
  X509_set_pubkey(x, subject_key);
  X509_NAME *n = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(n, "O", MBSTRING_ASC, (const unsigned char *)"Test", -1, -1, 0);
  if (s.has_cn) X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char *)s.cn.c_str(), -1, -1, 0);
  if (s.has_serial) X509_NAME_add_entry_by_txt(n, "serialNumber", MBSTRING_ASC, (const unsigned char *)s.serial.c_str(), -1, -1, 0);
  X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n);
  if (s.ca) {
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_basic_constraints, "critical,CA:TRUE");
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
  }
  if (s.comment) {
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_netscape_comment, std::string(s.comment, 'c').c_str());
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
  }
  X509_sign(x, issuer_key, EVP_sha256());
  return x;
}

std::string pem(X509 *x)
{
  BIO *b = BIO_new(BIO_s_mem());
  PEM_write_bio_X509(b, x);
  char *p = nullptr;
  long n = BIO_get_mem_data(b, &p);
  std::string s(p, (size_t)n);
  BIO_free(b);
  return s;
}

Pki::Pki()
{
  root_key = load(0);
  inter_key = load(1);
  att_key = load(2);
  evil_key = load(3);
  rsa_key = load(0, false);
  CertSpec r;
  r.cn = "Test Root";
  r.has_serial = false;
  r.ca = true;
  root = make_cert(root_key, r, root_key, nullptr);
  evil_root = make_cert(evil_key, r, evil_key, nullptr);
  r.cn = "Test Intermediate";
  inter = make_cert(inter_key, r, root_key, root);
  evil_inter = make_cert(inter_key, r, evil_key, evil_root);
}

Pki &pki()
{
  static Pki p;
  return p;
}

Bytes signed_data(const Key &video_key, const Bytes &chip, const Bytes &timestamp)
{
  static const uint8_t attributes[37] = {0x7b, 0x00, 0x02, 0x01, 0x29, 0x01, 0x00, 0x00, 0x7b, 0x00, 0x00, 0x03, 0x00, 0x00, 0x08, 0x7b, 0x00, 0x00,
      0x03, 0x1f, 0x3c, 0x00, 0x00, 0x08, 0x00, 0x00, 0x00, 0x00, 0x00, 0x20, 0x00, 0x00, 0x02, 0x00, 0x00, 0x00, 0x00};
  static const uint8_t fresh[16] = {0x92, 0xbb, 0xed, 0xfb, 0x98, 0x82, 0xac, 0x16, 0xc7, 0xf0, 0x1a, 0xe4, 0x59, 0x05, 0x96, 0x04};
  Bytes raw = {0x80, 0x22, 0, 0, 0, 0, 0x21, 0x41, 0x04, 0x7b, 0x00, 0x02, 0x01, 0x45, 0x04, 0xf0, 0x00, 0x00, 0x12, 0x46, 0x01, 0x21, 0x47, 0x10};
  raw.insert(raw.end(), fresh, fresh + 16);
  Bytes d = digest("sha256", raw);
  auto put = [&](std::initializer_list<int> l) {
    for (int v : l) d.push_back((uint8_t)v);
  };
  auto app = [&](const uint8_t *p, size_t n) { d.insert(d.end(), p, p + n); };
  BIO *b = BIO_new_mem_buf(video_key.pub.data(), (int)video_key.pub.size());
  EVP_PKEY *pk = PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  unsigned char *pt = nullptr;
  size_t n = EVP_PKEY_get1_encoded_public_key(pk, &pt);
  put({0x41, 0x82, (int)(n >> 8), (int)(n & 255)});
  app(pt, n);
  OPENSSL_free(pt);
  EVP_PKEY_free(pk);
  put({0x42, 0x82, 0, 0x12});
  app(chip.data(), chip.size());
  put({0x43, 0x82, 0, 37});
  app(attributes, 37);
  put({0x44, 0x82, 0, 2, 0, 0x20, 0x4f, 0x82, 0, 0x0c});
  app(timestamp.data(), timestamp.size());
  return d;
}

Bytes sign_data(EVP_PKEY *k, const Bytes &d)
{
  EVP_MD_CTX *m = EVP_MD_CTX_new();
  EVP_DigestSignInit(m, nullptr, EVP_sha256(), nullptr, k);
  size_t n = 0;
  EVP_DigestSign(m, nullptr, &n, d.data(), d.size());
  Bytes s(n);
  EVP_DigestSign(m, s.data(), &n, d.data(), d.size());
  s.resize(n);
  EVP_MD_CTX_free(m);
  return s;
}

Bytes attestation(Rng &r, const Bytes &timestamp, const Bytes &sig)
{
  Bytes a = r.bytes(8);
  a.push_back(1);
  a.insert(a.end(), timestamp.begin(), timestamp.end());
  a.push_back((uint8_t)(sig.size() >> 8));
  a.push_back((uint8_t)sig.size());
  a.insert(a.end(), sig.begin(), sig.end());
  return a;
}

std::string hex(const Bytes &b)
{
  std::string s;
  for (uint8_t v : b) s += strf("%02X", v);
  return s;
}

Attested make_attested(Rng &r, const Key &video_key, const std::string &serial)
{
  Pki &p = pki();
  Bytes chip = {0x04, 0x00, 0x50, 0x01};
  Bytes rest = r.bytes(14), timestamp = r.bytes(12);
  chip.insert(chip.end(), rest.begin(), rest.end());
  CertSpec leaf;
  leaf.cn = "Axis Edge Vault Attestation " + hex(chip);
  leaf.serial = serial;
  X509 *lc = make_cert(p.att_key, leaf, p.inter_key, p.inter);
  Attested a;
  a.chain = pem(lc) + pem(p.inter) + pem(p.root);
  X509_free(lc);
  a.attestation = attestation(r, timestamp, sign_data(p.att_key, signed_data(video_key, chip, timestamp)));
  return a;
}

#ifdef HARNESS_CERT
// Every certificate read by the library which is the real root becomes the root of the test.
static X509 *test_root_if_real(X509 *c);
// Also if the root is read in some other way.
extern "C" int __real_X509_STORE_add_cert(X509_STORE *st, X509 *x);
extern "C" int __wrap_X509_STORE_add_cert(X509_STORE *st, X509 *x)
{
  X509 *t = x ? test_root_if_real(x) : nullptr;
  return __real_X509_STORE_add_cert(st, t ? t : x);
}
extern "C" X509 *__real_PEM_read_bio_X509(BIO *bp, X509 **x, pem_password_cb *cb, void *u);
extern "C" X509 *__wrap_PEM_read_bio_X509(BIO *bp, X509 **x, pem_password_cb *cb, void *u)
{
  X509 *c = __real_PEM_read_bio_X509(bp, x, cb, u);
  if (!c) return c;
  if (test_root_if_real(c)) {
    X509_free(c);
    X509_up_ref(pki().root);
    if (x) *x = pki().root;
    return pki().root;
  }
  return c;
}
static X509 *test_root_if_real(X509 *c)
{
  char cn[100] = {0};
  X509_NAME_get_text_by_NID(X509_get_subject_name(c), NID_commonName, cn, sizeof(cn));
  return strcmp(cn, "Axis Edge Vault CA ECC") == 0 ? pki().root : nullptr;
}
#endif
