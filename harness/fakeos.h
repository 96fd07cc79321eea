// An output stream that records what is written to it (numbers symbolically).
#pragma once
#include "common.h"
#include <ostream>
struct OsTok { int kind; const char* s; long n; double d; };  // 0 text, 1 integer, 2 real
struct FakeOs {
  long vt[4];
  struct Obj { void* vptr; char pad[56]; char ios[512]; } o;
  FakeOs() {
    memset(this, 0, sizeof *this);
    vt[0] = offsetof(Obj, ios);
    o.vptr = &vt[3];
  }
  std::ostream& os() { return *(std::ostream*)(void*)&o; }
};
extern OsTok osToks[400];
extern int osN;
