// the ideal cipher behind the OpenSSL calls (rt/openssl.cpp), as a harness sees it
#pragma once
#include <stdint.h>
extern int crypto_fault_budget;      // EVP/RAND calls that may fail (forked)
extern bool crypto_rand_symbolic;    // RAND_bytes returns arbitrary bytes (else distinct counters)
extern int crypto_rand_calls;
extern int64_t crypto_ctx_live;      // contexts allocated and not freed
