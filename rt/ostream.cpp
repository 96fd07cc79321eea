#include "../harness/fakeos.h"
OsTok osToks[400];
int osN = 0;
static void put(int k, const char* s, long n, double d) { if (osN < 400) { osToks[osN].kind = k; osToks[osN].s = s; osToks[osN].n = n; osToks[osN].d = d; osN++; } }
extern "C" {
void* __model__ZNSo9_M_insertIdEERSoT_(void* os, double d) { put(2, nullptr, 0, d); return os; }
void* __model__ZNSo9_M_insertIlEERSoT_(void* os, long n) { put(1, nullptr, n, 0); return os; }
void* __model__ZNSo9_M_insertImEERSoT_(void* os, unsigned long n) { put(1, nullptr, (long)n, 0); return os; }
void* __model__ZNSolsEi(void* os, int n) { put(1, nullptr, n, 0); return os; }
void* __model__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* os, const char* s) { put(0, s, (long)strlen(s), 0); return os; }
void* __model__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* os, const char* s, long n) { put(0, s, n, 0); return os; }
void* __model__ZNSo3putEc(void* os, char c) { put(0, c == '\n' ? "\n" : "c", 1, 0); return os; }
void* __model__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* os, char c) { put(0, c == '\n' ? "\n" : "c", 1, 0); return os; }
}
