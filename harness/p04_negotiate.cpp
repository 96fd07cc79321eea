#include "common.h"
#include <wdt/Protocol.h>
using namespace facebook::wdt;
extern "C" void h_negotiate(long) {
  int a = sym_i32("requested"), b = sym_i32("own");
  sym_assume(b >= 10);  // our own version is a supported one
  int r = Protocol::negotiateProtocol(a, b);
  if (r == 0) {
    sym_cover("refused");
    sym_assert(a < 10, "only unsupported versions are refused");
  } else {
    sym_cover("agreed");
    sym_assert(a >= 10, "unsupported versions are refused");
    sym_assert(r >= 10 && r <= a && r <= b, "the agreed version is one both sides have");
    sym_assert(r == a || r == b, "the agreed version is the older of the two");
    sym_assert(Protocol::negotiateProtocol(r, b) == r, "the receiver confirms the agreed version");
    sym_assert(Protocol::negotiateProtocol(r, a) == r, "the sender confirms the agreed version");
  }
  int c = sym_i32("peer");
  int d = Protocol::negotiateProtocol(c);
  sym_assert(d == 0 || (d <= Protocol::protocol_version && d <= c), "never newer than this program's version");
}
