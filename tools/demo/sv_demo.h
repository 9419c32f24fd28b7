// Small helpers for the demonstrations: make H.264 units, sign them and validate them through the public API.
#pragma once
#include <assert.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "includes/signed_video_auth.h"
#include "includes/signed_video_common.h"
#include "includes/signed_video_helpers.h"
#include "includes/signed_video_openssl.h"
#include "includes/signed_video_sign.h"

typedef struct {
  uint8_t *d;
  size_t n;
  char type;
  int id;
} unit_t;

typedef struct {
  unit_t u[4000];
  int n;
} stream_t;

#define MUST(x) \
  do { \
    int rc_ = (x); \
    if (rc_ != 0) { \
      printf("%s:%d: %s gave %d\n", __FILE__, __LINE__, #x, rc_); \
      exit(1); \
    } \
  } while (0)
#define EXPECT(x) \
  do { \
    if (!(x)) { \
      printf("%s:%d: expected %s\n", __FILE__, __LINE__, #x); \
      exit(1); \
    } \
  } while (0)

static inline unit_t
mk(char type, int id, size_t size)
{
  unit_t u = {malloc(size + 8), size + 8, type, id};
  static const uint8_t sc[4] = {0, 0, 0, 1};
  memcpy(u.d, sc, 4);
  u.d[4] = type == 'I' ? 0x65 : type == 'P' ? 0x41 : 0x67;
  u.d[5] = type == 'I' ? 0x88 : 0x9a;
  unsigned x = (unsigned)id * 2654435761u + 12345u;
  for (size_t i = 6; i < u.n - 1; i++) {
    x = x * 1664525u + 1013904223u;
    u.d[i] = (uint8_t)((x >> 24) | 4);
  }
  u.d[u.n - 1] = 0x80;
  return u;
}

static inline unit_t
copy_unit(unit_t a)
{
  unit_t b = a;
  b.d = malloc(a.n);
  memcpy(b.d, a.d, a.n);
  return b;
}

// A video of the given types, e.g., "IPPIPP".
static inline void
video(stream_t *s, const char *types)
{
  s->n = 0;
  for (const char *t = types; *t; t++) s->u[s->n] = mk(*t, 100 + s->n, 40), s->n++;
}

static inline void
push(stream_t *s, unit_t u)
{
  s->u[s->n++] = u;
}

static inline void
drop(stream_t *s, int at)
{
  memmove(&s->u[at], &s->u[at + 1], (size_t)(s->n - at - 1) * sizeof(unit_t));
  s->n--;
}

static inline int
nth(const stream_t *s, char type, int k)
{
  for (int i = 0; i < s->n; i++)
    if (s->u[i].type == type && k-- == 0) return i;
  return -1;
}

static inline void
pull(signed_video_t *sv, stream_t *out)
{
  for (;;) {
    size_t n = 0;
    MUST(signed_video_get_sei(sv, NULL, &n, NULL, NULL, 0, NULL));
    if (!n) break;
    unit_t u = {malloc(n), n, 'S', -1};
    MUST(signed_video_get_sei(sv, u.d, &n, NULL, NULL, 0, NULL));
    u.n = n;
    push(out, u);
  }
}

static inline void
sign_all(signed_video_t *sv, const stream_t *in, stream_t *out, const int64_t *ts)
{
  for (int i = 0; i < in->n; i++) {
    int64_t t = ts ? *ts + i : 0;
    MUST(signed_video_add_nalu_for_signing_with_timestamp(sv, in->u[i].d, in->u[i].n, ts ? &t : NULL));
    pull(sv, out);
    push(out, in->u[i]);
  }
}

static inline signed_video_t *
signer(SignedVideoAuthenticityLevel level, bool rsa)
{
  char *key = NULL;
  size_t size = 0;
  if (rsa) MUST(signed_video_generate_rsa_private_key(NULL, &key, &size));
  else MUST(signed_video_generate_ecdsa_private_key(NULL, &key, &size));
  signed_video_t *sv = signed_video_create(SV_CODEC_H264);
  EXPECT(sv);
  MUST(signed_video_set_private_key_new(sv, key, size));
  free(key);
  MUST(signed_video_set_authenticity_level(sv, level));
  MUST(signed_video_set_product_info(sv, "hw", "fw", "serial", "maker", "address"));
  return sv;
}

// Results of a validation.
typedef struct {
  int reports;
  int verdicts[1000];
  char *vstr[1000];
  char *nstr[1000];
  bool key_changed[1000];
  int acc;
  bool acc_key_changed;
  unsigned received, validated, pending;
  int errors;
} result_t;

static inline void
feed(signed_video_t *sv, const stream_t *s, result_t *r)
{
  for (int i = 0; i < s->n; i++) {
    signed_video_authenticity_t *a = NULL;
    if (signed_video_add_nalu_and_authenticate(sv, s->u[i].d, s->u[i].n, &a)) r->errors++;
    if (!a) continue;
    r->verdicts[r->reports] = a->latest_validation.authenticity;
    r->key_changed[r->reports] = a->latest_validation.public_key_has_changed;
    r->vstr[r->reports] = strdup(a->latest_validation.validation_str ? a->latest_validation.validation_str : "");
    r->nstr[r->reports] = strdup(a->latest_validation.nalu_str ? a->latest_validation.nalu_str : "");
    r->reports++;
    signed_video_authenticity_report_free(a);
  }
  signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv);
  if (a) {
    r->acc = a->accumulated_validation.authenticity;
    r->acc_key_changed = a->accumulated_validation.public_key_has_changed;
    r->received = a->accumulated_validation.number_of_received_nalus;
    r->validated = a->accumulated_validation.number_of_validated_nalus;
    r->pending = a->accumulated_validation.number_of_pending_nalus;
    signed_video_authenticity_report_free(a);
  }
}

static inline void
validate(const stream_t *s, result_t *r)
{
  memset(r, 0, sizeof(*r));
  signed_video_t *sv = signed_video_create(SV_CODEC_H264);
  feed(sv, s, r);
  signed_video_free(sv);
  for (int i = 0; i < r->reports; i++) printf("  %d %s %s\n", r->verdicts[i], r->nstr[i], r->vstr[i]);
  printf("  accumulated %d key changed %d received %u validated %u pending %u errors %d\n", r->acc, r->acc_key_changed, r->received, r->validated, r->pending, r->errors);
}
