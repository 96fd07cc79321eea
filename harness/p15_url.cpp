// connection URLs (P15, P16) and encryption parameters (P17)
#include "common.h"
#include <wdt/WdtTransferRequest.h>
#include <wdt/util/EncryptionUtils.h>
using namespace facebook::wdt;
static bool alnum(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
// ---- P15
extern "C" void h_escape(long n) {
  std::string s = symStr((size_t)n, "text");
  std::string e = WdtUri::escape(s);
  bool safe = true;
  for (char c : e) safe = safe & (alnum(c) | (c == '%') | (c == ',') | (c == ':') | (c == '.') | (c == '_') | (c == '+') | (c == '-'));
  sym_assert(safe, "an escaped text has no delimiters");
  std::string back("x");
  sym_assert(WdtUri::unescape(back, e), "an escaped text can be read");
  sym_assert(sameStr(back, std::string("x") + s), "unescaping returns the text");
  sym_cover("text");
}
static void same(const WdtTransferRequest& a, const WdtTransferRequest& b) {
  sym_assert(b.errorCode == OK, "the URL is accepted");
  sym_assert(sameStr(a.hostName, b.hostName), "host name");
  sym_assert(sameStr(a.transferId, b.transferId), "transfer id");
  sym_assert(sameStr(a.wdtNamespace, b.wdtNamespace), "namespace");
  sym_assert(sameStr(a.destIdentifier, b.destIdentifier), "destination id");
  sym_assert(a.protocolVersion == b.protocolVersion, "protocol version");
  sym_assert(a.ivChangeInterval == b.ivChangeInterval, "key change interval");
  sym_assert(a.downloadResumptionEnabled == b.downloadResumptionEnabled, "resumption flag");
  sym_assert(a.tls == b.tls, "tls flag");
  sym_assert(a.ports.size() == b.ports.size(), "number of ports");
  for (size_t i = 0; i < a.ports.size(); i++) sym_assert(a.ports[i] == b.ports[i], "ports");
  sym_assert(a.encryptionData.isSet() == b.encryptionData.isSet() && a.encryptionData.getType() == b.encryptionData.getType(), "encryption type");
  sym_assert(sameStr(a.encryptionData.getSecret(), b.encryptionData.getSecret()), "secret");
}
static void base(WdtTransferRequest& r) { r.hostName = "h"; r.ports = {22356, 22357}; }
extern "C" void h_text(long arg) { // texts of any bytes
  WdtTransferRequest r; base(r);
  int which = (int)arg & 3;
  std::string* f = which == 0 ? &r.transferId : which == 1 ? &r.wdtNamespace : &r.destIdentifier;
  *f = symStr((size_t)(arg >> 2), "text");
  if (which != 0 && sym_choice("id", 0, 1)) r.transferId = "a&b=c%?#";
  same(r, WdtTransferRequest(r.genWdtUrlWithSecret()));
  sym_cover("same");
}
extern "C" void h_host(long n) {
  WdtTransferRequest r; base(r);
  r.hostName = symStr((size_t)n, "host");
  for (char c : r.hostName) sym_assume(alnum(c) | (c == '.') | (c == '-') | (c == '_') | (c == ':') | (c == '%'));
  same(r, WdtTransferRequest(r.genWdtUrlWithSecret()));
  sym_cover("same");
}
extern "C" void h_numbers(long arg) {
  int n = (int)arg & 7, bits = (int)(arg >> 3) & 63;
  WdtTransferRequest r; base(r);
  if (n) {
    r.ports.clear();
    bool run = sym_choice("contiguous", 0, 1);
    for (int i = 0; i < n; i++) {
      int32_t p = run && i ? r.ports[0] + i : (int32_t)wsym_sym("port", bits);
      sym_assume((p > 0) & (p < 65536));
      r.ports.push_back(p);
    }
  } else {
    int64_t v = (int64_t)wsym_sym("number", bits);
    if (sym_choice("negative", 0, 1)) v = ~v;
    if (sym_choice("which", 0, 1)) r.protocolVersion = v; else r.ivChangeInterval = v;
  }
  same(r, WdtTransferRequest(r.genWdtUrlWithSecret()));
  sym_cover("same");
}
extern "C" void h_flags(long n) {
  WdtTransferRequest r; base(r);
  r.downloadResumptionEnabled = sym_choice("dr", 0, 1);
  r.tls = sym_choice("tls", 0, 1);
  r.directory = "/secret";
  int t = sym_choice("type", 0, NUM_ENC_TYPES - 1);
  if (t) r.encryptionData = EncryptionParams((EncryptionType)t, symStr((size_t)n, "secret"));
  std::string u = r.genWdtUrlWithSecret();
  WdtTransferRequest b(u);
  same(r, b);
  sym_assert(b.directory.empty(), "the directory is not passed on");
  sym_cover("same");
}
// ---- P16
extern size_t (*rt_hash_hook)(const void*, size_t);
static size_t constHash(const void*, size_t) { return 12345; }
extern "C" void h_logsafe(long n) {
  WdtTransferRequest a; base(a);
  int t = sym_choice("type", 1, NUM_ENC_TYPES - 1);
  WdtTransferRequest b(a);
  std::string s1 = symStr((size_t)n, "secret"), s2 = symStr((size_t)n, "other secret");
  a.encryptionData = EncryptionParams((EncryptionType)t, s1);
  b.encryptionData = EncryptionParams((EncryptionType)t, s2);
  rt_hash_hook = constHash;
  sym_assert(a.getLogSafeString() == b.getLogSafeString(), "the log-safe form depends on the secret only through its hash");
  sym_assert(a.encryptionData.getLogSafeString() == b.encryptionData.getLogSafeString(), "as does that of the parameters");
  sym_cover("safe");
}
// an independent reading of the parameters: key=value pairs between & signs
static bool oneChar(const std::string& v, size_t& i, char& c) {
  c = v[i++];
  if (c != '%') return true;
  if (i + 2 > v.size()) return false;
  int x = 0;
  for (int k = 0; k < 2; k++) { char h = v[i++]; int d; if (h >= '0' && h <= '9') d = h - '0'; else if (h >= 'a' && h <= 'f') d = h - 'a' + 10; else return false; x = x * 16 + d; }
  c = (char)x;
  return true;
}
extern "C" void h_unescape(long n) {
  std::string s = symStr((size_t)n, "text"), r, want; bool ok = true;
  for (size_t i = 0; ok && i < s.size();) { char c; ok = oneChar(s, i, c); if (ok) want.push_back(c); }
  bool got = WdtUri::unescape(r, s);
  sym_assert(got == ok, "malformed escapes are refused, others accepted");
  if (ok) { sym_assert(sameStr(r, want), "the text"); sym_cover("accepted"); } else sym_cover("refused");
}
static std::string tmpl(const char* pre, int n, const char* post) { return std::string(pre) + symStr((size_t)n, "text") + post; }
extern "C" void h_uri(long arg) { // anything after the prefix
  int n = (int)arg & 15, where = (int)(arg >> 4) & 3;
  std::string u = where == 0 ? tmpl("wdt://", n, "") : where == 1 ? tmpl("", n, "") : where == 2 ? tmpl("wdt://[", n, "]:1") : tmpl("wdt://h?", n, "");
  WdtUri w(u);
  if (where == 1 && n < 7) sym_assert(w.getErrorCode() == URI_PARSE_ERROR, "not a wdt URL");
  std::string h = w.getHostName();
  if (w.getErrorCode() == OK) {
    sym_assert(!h.empty(), "a URL has a host");
    bool in = false;
    for (size_t i = 0; i + h.size() <= u.size() && !in; i++) in = sameStr(u.substr(i, h.size()), h);
    sym_assert(in, "the host is part of the URL");
    sym_cover("accepted");
  } else sym_cover("refused");
  if (where == 3) { // compare with an independent reading
    sym_assert(h == "h", "the host");
    std::string rest = u.substr(8); std::vector<std::string> pairs(1);
    for (char c : rest) { if (c == '&') pairs.emplace_back(); else pairs.back().push_back(c); }
    if (pairs.size() > 1 && pairs.back().empty()) pairs.pop_back();
    bool gap = false; for (auto& p : pairs) if (p.empty()) gap = true;
    if (!gap) {
      bool ok = true; std::map<std::string, std::string> want;
      for (auto& p : pairs) {
        size_t k = 0; while (k < p.size() && p[k] != '=') k++;
        if (k == 0) { ok = false; break; }
        std::string v; bool good = true;
        for (size_t i = k + 1; good && i < p.size();) { char c; good = oneChar(p, i, c); if (good) v.push_back(c); }
        if (!good) { ok = false; continue; }
        want[p.substr(0, k)] = v;
      }
      sym_assert((w.getErrorCode() == OK) == ok, "accepted exactly if well-formed");
      if (ok) {
        sym_assert(w.getQueryParams().size() == want.size(), "number of parameters");
        for (auto& p : want) sym_assert(sameStr(w.getQueryParam(p.first), p.second), "the parameter");
      }
    }
  }
}
extern "C" void h_request(long arg) { // a whole request with an arbitrary part
  int n = (int)arg & 15, where = (int)(arg >> 4) & 15;
  std::string u = where == 0 ? tmpl("wdt://h:", n, "?num_ports=2") : where == 1 ? tmpl("wdt://h:1?num_ports=", n, "") : where == 2 ? tmpl("wdt://h?ports=", n, "") : where == 3 ? tmpl("wdt://h:1?num_ports=1&recpv=", n, "")
      : where == 4 ? tmpl("wdt://h:1?num_ports=1&tls=", n, "") : where == 5 ? tmpl("wdt://h:1?num_ports=1&Enc=", n, "") : where == 6 ? tmpl("wdt://h?start_port=", n, "&num_ports=1") : tmpl("wdt://", n, "");
  if (where == 1 && n > 2) u = "wdt://h:1?num_ports=" + std::string(n, '9'); // more ports than there are
  if (where == 0 && n > 3) for (int i = 8; i < 8 + n; i++) sym_assume((u[i] >= '0') & (u[i] <= '9'));
  WdtTransferRequest r(u);
  if (r.errorCode == OK) {
    sym_assert(!r.hostName.empty(), "a request has a host");
    sym_assert(r.ports.size() <= 65536, "no more ports than there are");
    for (size_t i = 0; i < r.ports.size() && i < 3; i++) sym_assert(where > 1 || r.ports[i] <= 65535, "a port");
    sym_cover("accepted");
  } else sym_cover("refused");
}
// ---- P17
extern "C" void h_params(long n) {
  int t = sym_choice("type", 1, NUM_ENC_TYPES - 1);
  std::string s = symStr((size_t)n, "secret");
  EncryptionParams p((EncryptionType)t, s), q;
  sym_assert(p.isSet() && p.getType() == t && sameStr(p.getSecret(), s), "what was given");
  std::string u = p.getUrlSafeString();
  bool safe = true;
  for (char c : u) safe = safe & (alnum(c) | (c == ':'));
  sym_assert(safe, "no characters that must be escaped");
  if (sym_choice("reused", 0, 1)) q = EncryptionParams(ENC_AES128_CTR, "old");
  sym_assert(EncryptionParams::unserialize(u, q) == OK, "its own form is accepted");
  sym_assert(q == p && q.getType() == p.getType() && sameStr(q.getSecret(), s), "same type and secret");
  q.erase();
  sym_assert(!q.isSet() && q.getSecret().empty(), "nothing is left after erasing");
  sym_cover("same");
}
static int hexd(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
extern "C" void h_parse(long arg) {
  int n = (int)arg & 15, form = (int)(arg >> 4);
  std::string s = symStr((size_t)n, "text");
  if (form) { // a long type
    for (int i = 0; i < n; i++) sym_assume(i == n - 3 ? s[i] == ':' : (s[i] >= '0') & (s[i] <= '9'));
  }
  // type ':' pairs of hexadecimal digits
  bool ok = true; size_t i = 0; int type = 0;
  for (; ok && i < s.size() && s[i] != ':'; i++) { int d = hexd(s[i]); if (d < 0) ok = false; else { type = type * 16 + d; if (type > 255) type = 255; } }
  if (i >= s.size() || type == 0 || type >= NUM_ENC_TYPES) ok = false;
  std::string want; size_t rest = ok ? s.size() - i - 1 : 0;
  if (ok && (rest == 0 || rest % 2)) ok = false;
  for (i++; ok && i < s.size(); i += 2) { int a = hexd(s[i]), b = hexd(s[i + 1]); if (a < 0 || b < 0) ok = false; else want.push_back((char)(a * 16 + b)); }
  EncryptionParams p;
  if (sym_choice("reused", 0, 1)) p = EncryptionParams(ENC_AES128_CTR, "old");
  ErrorCode e = EncryptionParams::unserialize(s, p);
  sym_assert((e == OK) == ok, "accepted exactly if well-formed");
  if (ok) { sym_assert(p.isSet() && p.getType() == type && sameStr(p.getSecret(), want), "type and secret"); sym_cover("accepted"); }
  else { sym_assert(!p.isSet() && p.getType() == ENC_NONE && p.getSecret().empty(), "nothing is set after an error"); sym_cover("refused"); }
}
extern "C" void h_type(long) {
  int t = (int)(sym_u8("type"));
  EncryptionParams p((EncryptionType)t, "k");
  sym_assert(p.isSet() == (t > 0 && t < NUM_ENC_TYPES), "only known types are set");
  if (!p.isSet()) sym_assert(t == 0 || p.getSecret().empty(), "no secret without a type");
  std::string name = encryptionTypeToStr((EncryptionType)(t % NUM_ENC_TYPES));
  sym_assert(parseEncryptionType(name) == t % NUM_ENC_TYPES, "names of types");
  sym_cover("type");
}
