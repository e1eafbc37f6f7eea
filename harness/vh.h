// Common frame of all monitors: case generation, violation reports, counters and progress marks.
#pragma once
#include <blend2d/blend2d.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <math.h>
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix64(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed + 0x9e3779b97f4a7c15ull)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  uint32_t u32() { return uint32_t(u64() >> 32); }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  // [lo, hi]
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  double unit() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double dbl(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template<typename T, size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
  template<typename T> const T& pick(const std::vector<T>& a) { return a[below(a.size())]; }
  // Skewed size: mostly small, sometimes large.
  uint64_t skew(uint64_t max) { uint32_t k = uint32_t(below(8)); uint64_t m = k < 4 ? std::min<uint64_t>(max, 8) : k < 7 ? std::min<uint64_t>(max, max / 8 + 8) : max; return below(m + 1); }
};

struct Violation {};

struct State {
  uint64_t seed = 1, cases = 0, start = 0; uint32_t shard = 0, nshards = 1; bool only = false; bool thorough = false;
  std::string mode, corpus, scratch;
  uint64_t cur = 0; uint64_t evals = 0; uint32_t nviol = 0;
  std::map<std::string, uint64_t> counters; std::unordered_set<uint64_t> hashes; std::vector<std::string> samples;
  std::map<std::string, uint32_t> viol_keys; std::mutex mu; volatile uint64_t* progress = nullptr; bool verbose = false;
};
inline State& st() { static State* s = new State(); return *s; }

inline void report(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void report(const char* key, const char* fmt, ...) {
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  for (char* p = buf; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
  std::lock_guard<std::mutex> g(st().mu);
  if (st().viol_keys[key]++ < 2) { printf("VH-VIOLATION\t%s\t%llu\t%s\n", key, (unsigned long long)st().cur, buf); fflush(stdout); st().nviol++; }
}
[[noreturn]] inline void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void fail(const char* key, const char* fmt, ...) {
  char buf[1800]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  report(key, "%s", buf); throw Violation{};
}
#define VH_CHECK(cond, key, ...) do { if (!(cond)) vh::fail(key, __VA_ARGS__); } while (0)
#define VH_OK(expr, key) do { BLResult r__ = (expr); if (r__ != BL_SUCCESS) vh::fail(key, "%s failed: %u", #expr, unsigned(r__)); } while (0)
#define VH_ASSUME(cond) do { if (!(cond)) { fprintf(stderr, "VH-HARNESS-ERROR %s:%d %s\n", __FILE__, __LINE__, #cond); fflush(stderr); _exit(77); } } while (0)

inline void count(const char* name, uint64_t n = 1) { std::lock_guard<std::mutex> g(st().mu); st().counters[name] += n; }
// A distinct, non-trivial case (by the harness' rule).
inline void distinct(uint64_t h) { std::lock_guard<std::mutex> g(st().mu); if (st().hashes.size() < 60000) st().hashes.insert(h); }
inline void evals(uint64_t n = 1) { st().evals += n; }
inline void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char* fmt, ...) {
  if (st().samples.size() >= 3) return;
  char buf[600]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  std::string s; for (char* p = buf; *p; p++) { unsigned char c = *p; if (c == '"' || c == '\\') { s += '\\'; s += char(c); } else if (c < 32 || c > 126) s += ' '; else s += char(c); }
  st().samples.push_back(s);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const uint8_t* b = (const uint8_t*)p; while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) h = (h ^ *b++) * 0x100000001b3ull; return mix64(h);
}
struct Hash { uint64_t h = 0x1234567; template<typename T> Hash& add(const T& v) { h = hash_bytes(&v, sizeof v, h); return *this; } Hash& add(const void* p, size_t n) { h = hash_bytes(p, n, h); return *this; } };

} // vh

void vh_init();                          // Called once.
void vh_case(uint64_t id, vh::Rng& rng); // Called for every case.
void vh_finish();                        // Called once at the end.

#ifndef VH_NO_MAIN
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1500:detect_stack_use_after_return=0:abort_on_error=0:handle_sigill=1:quarantine_size_mb=32:malloc_context_size=6"; }
int main(int argc, char** argv) {
  using namespace vh; State& s = st(); const char* stats = nullptr; const char* prog = nullptr; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") s.seed = strtoull(nx(), 0, 0); else if (a == "--shard") s.shard = atoi(nx()); else if (a == "--nshards") s.nshards = atoi(nx());
    else if (a == "--cases") s.cases = strtoull(nx(), 0, 0); else if (a == "--start") s.start = strtoull(nx(), 0, 0);
    else if (a == "--case") { s.only = true; s.start = strtoull(nx(), 0, 0); } else if (a == "--mode") s.mode = nx(); else if (a == "--tier") s.thorough = !strcmp(nx(), "thorough");
    else if (a == "--stats") stats = nx(); else if (a == "--progress") prog = nx(); else if (a == "--corpus") s.corpus = nx(); else if (a == "--scratch") s.scratch = nx(); else if (a == "-v") s.verbose = true;
  }
  static uint64_t dummy[2]; s.progress = dummy;
  if (prog) { int fd = open(prog, O_RDWR | O_CREAT, 0644); if (fd >= 0 && ftruncate(fd, 16) == 0) { void* p = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) s.progress = (volatile uint64_t*)p; } if (fd >= 0) close(fd); }
  s.progress[0] = s.start; s.progress[1] = 1; // [case id, state: 1 init/case, 2 finish, 3 done]
  vh_init();
  uint64_t end = s.only ? s.start + 1 : s.cases;
  for (uint64_t id = s.start; id < end; id++) {
    if (!s.only && id % s.nshards != s.shard) continue;
    s.cur = id; s.progress[0] = id; Rng rng(mix64(s.seed * 0x9e3779b97f4a7c15ull) ^ mix64(id + 0x51ed27));
    try { vh_case(id, rng); } catch (const Violation&) {}
    s.evals++;
    if (s.nviol > 40) break;
  }
  s.progress[1] = 2;
  try { vh_finish(); } catch (const Violation&) {}
  if (stats) {
    FILE* f = fopen(stats, "w"); VH_ASSUME(f);
    fprintf(f, "{\"evals\":%llu,\"nviol\":%u,\"counters\":{", (unsigned long long)s.evals, s.nviol);
    bool c = false; for (auto& kv : s.counters) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", kv.first.c_str(), (unsigned long long)kv.second); c = true; }
    fprintf(f, "},\"samples\":["); c = false; for (auto& x : s.samples) { fprintf(f, "%s\"%s\"", c ? "," : "", x.c_str()); c = true; }
    fprintf(f, "],\"hashes\":["); c = false; for (auto& x : s.hashes) { fprintf(f, "%s%llu", c ? "," : "", (unsigned long long)(x >> 12)); c = true; }
    fprintf(f, "]}\n"); fclose(f);
  }
  s.progress[1] = 3;
  printf("VH-DONE\n"); fflush(stdout);
  _exit(0); // Static destruction of the library is checked by dedicated monitors.
}
#endif
