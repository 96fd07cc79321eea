// An ideal stand-in for the OpenSSL EVP interface: a stream cipher whose keystream
// depends on key, iv and position, and an unforgeable tag: finishing a decryption
// succeeds only for a (key, iv, ciphertext, tag) that an encryption produced.
#include <wsym.h>
#include "crypto_model.h"
#include <cstdlib>
#include <cstring>
struct Cph { int kind; };
struct Ctx { const Cph* c; bool init, enc, keyed; uint8_t key[16], iv[16]; int ivlen; uint8_t* ct; int n, cap; uint8_t tag[16]; bool hasTag; };
struct Reg { uint8_t key[16], iv[16]; int ivlen; uint8_t* ct; int n; uint8_t tag[16]; };
static Cph ctr = {1}, gcm = {2};
#define MAXREG 64
static Reg regs[MAXREG];
static int nregs;
int crypto_fault_budget = 0, crypto_rand_calls = 0;
bool crypto_rand_symbolic = false;
int64_t crypto_ctx_live = 0;
static bool fault(const char* w) {
  if (crypto_fault_budget <= 0) return false;
  if (!sym_choice(w, 0, 1)) return false;
  crypto_fault_budget--;
  return true;
}
static uint8_t ks(const Ctx* x, int p) { return (uint8_t)(x->key[p & 15] ^ (x->iv[p % x->ivlen] * 3) ^ (p * 31 + 7)); }
static void put(Ctx* x, const uint8_t* d, int n) {
  if (x->n + n > x->cap) {
    int c = (x->n + n) * 2 + 32;
    uint8_t* nb = (uint8_t*)malloc(c);
    if (x->n) memcpy(nb, x->ct, x->n);
    free(x->ct);
    x->ct = nb; x->cap = c;
  }
  for (int i = 0; i < n; i++) x->ct[x->n + i] = d[i];
  x->n += n;
}
static uint64_t diff(const uint8_t* a, const uint8_t* b, int n) { uint64_t d = 0; for (int i = 0; i < n; i++) d |= (uint64_t)(a[i] ^ b[i]); return d; }
extern "C" {
const void* __model_EVP_aes_128_ctr(void) { return &ctr; }
const void* __model_EVP_aes_128_gcm(void) { return &gcm; }
int __model_EVP_CIPHER_get_block_size(const void*) { return 1; }
int __model_EVP_CIPHER_block_size(const void*) { return 1; }
void* __model_EVP_CIPHER_CTX_new(void) { Ctx* x = (Ctx*)malloc(sizeof(Ctx)); memset(x, 0, sizeof *x); x->ivlen = 12; crypto_ctx_live++; return x; }
int __model_EVP_CIPHER_CTX_reset(void* c) { Ctx* x = (Ctx*)c; if (!x) return 1; free(x->ct); memset(x, 0, sizeof *x); x->ivlen = 12; return 1; }
void __model_EVP_CIPHER_CTX_free(void* c) { if (!c) return; free(((Ctx*)c)->ct); free(c); crypto_ctx_live--; }
int __model_EVP_CIPHER_CTX_copy(void* o, const void* i) {
  if (fault("evp_copy_fails")) return 0;
  const Ctx* a = (const Ctx*)i; Ctx* b = (Ctx*)o;
  if (!a || !a->init) return 0;
  free(b->ct);
  memcpy(b, a, sizeof *a);
  b->ct = nullptr; b->cap = 0; b->n = 0;
  put(b, a->ct, a->n);
  return 1;
}
static int init(Ctx* x, const Cph* c, const uint8_t* k, const uint8_t* iv, bool enc) {
  if (fault("evp_init_fails")) return 0;
  if (c) { x->c = c; x->ivlen = c->kind == 1 ? 16 : 12; x->init = true; }
  x->enc = enc;
  if (k) { memcpy(x->key, k, 16); x->keyed = true; }
  if (iv) { memcpy(x->iv, iv, x->ivlen); x->n = 0; }
  return 1;
}
int __model_EVP_EncryptInit_ex(void* x, const void* c, void*, const uint8_t* k, const uint8_t* iv) {
  // a second initialization must not reset the iv length that was set in between
  Ctx* t = (Ctx*)x; return init(t, (t->init && t->c == c) ? nullptr : (const Cph*)c, k, iv, true);
}
int __model_EVP_DecryptInit_ex(void* x, const void* c, void*, const uint8_t* k, const uint8_t* iv) {
  Ctx* t = (Ctx*)x; return init(t, (t->init && t->c == c) ? nullptr : (const Cph*)c, k, iv, false);
}
int __model_EVP_EncryptUpdate(void* c, uint8_t* out, int* outl, const uint8_t* in, int n) {
  Ctx* x = (Ctx*)c;
  if (!x->keyed || n < 0 || fault("evp_update_fails")) return 0;
  for (int i = 0; i < n; i++) { uint8_t v = in[i] ^ ks(x, x->n); out[i] = v; put(x, &v, 1); }
  *outl = n;
  return 1;
}
int __model_EVP_DecryptUpdate(void* c, uint8_t* out, int* outl, const uint8_t* in, int n) {
  Ctx* x = (Ctx*)c;
  if (!x->keyed || n < 0 || fault("evp_update_fails")) return 0;
  for (int i = 0; i < n; i++) { uint8_t v = in[i]; out[i] = v ^ ks(x, x->n); put(x, &v, 1); }
  *outl = n;
  return 1;
}
int __model_EVP_EncryptFinal(void* c, uint8_t*, int* outl) { Ctx* x = (Ctx*)c; *outl = 0; return x->keyed && !fault("evp_final_fails"); }
int __model_EVP_EncryptFinal_ex(void* c, uint8_t* o, int* outl) { return __model_EVP_EncryptFinal(c, o, outl); }
int __model_EVP_CIPHER_CTX_ctrl(void* c, int op, int n, void* p) {
  Ctx* x = (Ctx*)c;
  if (fault("evp_ctrl_fails")) return 0;
  if (op == 0x9) { if (n <= 0 || n > 16) return 0; x->ivlen = n; return 1; }              // SET_IVLEN
  if (op == 0x11) { if (n <= 0 || n > 16 || x->enc) return 0; memset(x->tag, 0, 16); memcpy(x->tag, p, n); x->hasTag = n == 16; return 1; }  // SET_TAG
  if (op == 0x10) {  // GET_TAG
    if (n <= 0 || n > 16 || !x->enc || nregs >= MAXREG) return 0;
    Reg& r = regs[nregs];
    memcpy(r.key, x->key, 16); memcpy(r.iv, x->iv, 16); r.ivlen = x->ivlen; r.n = x->n;
    r.ct = (uint8_t*)malloc(x->n + 1);
    if (x->n) memcpy(r.ct, x->ct, x->n);
    for (int i = 0; i < 16; i++) r.tag[i] = (uint8_t)(0xA0 + i);
    // the same data has the same tag, different data another one
    int id = nregs;
    for (int j = 0; j < nregs; j++)
      if (regs[j].n == r.n && regs[j].ivlen == r.ivlen && (diff(regs[j].key, r.key, 16) | diff(regs[j].iv, r.iv, r.ivlen) | diff(regs[j].ct, r.ct, r.n)) == 0) { id = regs[j].tag[0]; break; }
    r.tag[0] = (uint8_t)id;
    nregs++;
    memcpy(p, r.tag, n);
    return 1;
  }
  return 0;
}
int __model_EVP_DecryptFinal(void* c, uint8_t*, int* outl) {
  Ctx* x = (Ctx*)c;
  *outl = 0;
  if (!x->keyed || fault("evp_final_fails")) return 0;
  if (x->c != &gcm) return 1;
  if (!x->hasTag) return 0;
  for (int j = 0; j < nregs; j++)
    if (regs[j].n == x->n && regs[j].ivlen == x->ivlen && (diff(regs[j].key, x->key, 16) | diff(regs[j].iv, x->iv, x->ivlen) | diff(regs[j].ct, x->ct, x->n) | diff(regs[j].tag, x->tag, 16)) == 0) return 1;
  return 0;
}
int __model_EVP_DecryptFinal_ex(void* c, uint8_t* o, int* outl) { return __model_EVP_DecryptFinal(c, o, outl); }
int __model_RAND_bytes(uint8_t* p, int n) {
  if (fault("rand_fails")) return 0;
  crypto_rand_calls++;
  if (crypto_rand_symbolic) { wsym_bytes(p, n, "rand"); return 1; }
  for (int i = 0; i < n; i++) p[i] = (uint8_t)(crypto_rand_calls * 17 + i * 5 + 1);
  return 1;
}
}
