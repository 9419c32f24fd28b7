// Certificates and attestations as of an Axis camera. The trusted root of the library is replaced by a root of the test when
// it is read through libcrypto (HARNESS_CERT).
#pragma once
#include <openssl/evp.h>
#include <openssl/x509.h>

#include "common.hpp"

struct CertSpec {
  std::string cn, serial;
  bool has_cn = true, has_serial = true;
  bool ca = false, expired = false;
  size_t comment = 0;  // Makes the certificate larger.
};
X509 *make_cert(EVP_PKEY *subject_key, const CertSpec &s, EVP_PKEY *issuer_key, X509 *issuer);
std::string pem(X509 *x);
struct Pki {
  EVP_PKEY *root_key, *inter_key, *att_key, *evil_key, *rsa_key;
  X509 *root, *inter, *evil_root, *evil_inter;
  Pki();
};
Pki &pki();
Bytes signed_data(const Key &video_key, const Bytes &chip, const Bytes &timestamp);  // The data covered by the attestation signature.
Bytes sign_data(EVP_PKEY *k, const Bytes &d);
Bytes attestation(Rng &r, const Bytes &timestamp, const Bytes &sig);
std::string hex(const Bytes &b);
struct Attested {
  Bytes attestation;
  std::string chain;
};
Attested make_attested(Rng &r, const Key &video_key, const std::string &serial);  // Everything in order.
