// stand-in for glog: log statements are compiled but never evaluated; CHECK is
// a fatal event the checker reports.
#pragma once
#include <iomanip>
#include <ostream>
#include <sstream>
#include <string>
#include <gflags/gflags.h>
extern "C" void wsym_check_failed(const char* expr, const char* file, int line) __attribute__((noreturn));
namespace wsymlog {
std::ostream& nullStream();
struct Voidify { void operator&(std::ostream&) {} };
}
#define WSYM_NULLLOG true ? (void)0 : wsymlog::Voidify() & wsymlog::nullStream()
#define LOG_FATAL_(c) (c)
#define WSYM_SEV_INFO 0
#define WSYM_SEV_WARNING 0
#define WSYM_SEV_ERROR 0
#define WSYM_SEV_FATAL 1
#define WSYM_LOGIF(sev, cond) \
  !(WSYM_SEV_##sev && (cond)) ? (void)0 : (wsym_check_failed("LOG(FATAL)", __FILE__, __LINE__), (void)0)
#define LOG(sev) \
  (WSYM_SEV_##sev ? wsym_check_failed("LOG(FATAL)", __FILE__, __LINE__) : (void)0), WSYM_NULLLOG
#define LOG_IF(sev, cond) WSYM_NULLLOG
#define PLOG(sev) WSYM_NULLLOG
#define PLOG_IF(sev, cond) WSYM_NULLLOG
#define VLOG(n) WSYM_NULLLOG
#define VLOG_IF(n, cond) WSYM_NULLLOG
#define VLOG_IS_ON(n) false
#define LOG_EVERY_N(sev, n) WSYM_NULLLOG
#define LOG_FIRST_N(sev, n) WSYM_NULLLOG
#define WSYM_CHECK(cond, txt) \
  ((cond) ? (void)0 : wsym_check_failed(txt, __FILE__, __LINE__)), WSYM_NULLLOG
#define CHECK(c) WSYM_CHECK((c), "CHECK(" #c ")")
#define PCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) WSYM_CHECK((a) == (b), "CHECK_EQ(" #a ", " #b ")")
#define CHECK_NE(a, b) WSYM_CHECK((a) != (b), "CHECK_NE(" #a ", " #b ")")
#define CHECK_LE(a, b) WSYM_CHECK((a) <= (b), "CHECK_LE(" #a ", " #b ")")
#define CHECK_LT(a, b) WSYM_CHECK((a) < (b), "CHECK_LT(" #a ", " #b ")")
#define CHECK_GE(a, b) WSYM_CHECK((a) >= (b), "CHECK_GE(" #a ", " #b ")")
#define CHECK_GT(a, b) WSYM_CHECK((a) > (b), "CHECK_GT(" #a ", " #b ")")
#define CHECK_NOTNULL(x) (x)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
namespace google { inline void InitGoogleLogging(const char*) {} }
