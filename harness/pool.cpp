// P32: thread pool and asynchronous contexts. pthread_create and the futex system call are wrapped at link time:
// creations fail or are delayed, waits return spuriously, wakes are delayed; created and ended threads are counted.
#include "vh.h"
#include <atomic>
#include <thread>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/threading/thread_p.h>
#include <blend2d/threading/threadpool_p.h>
using namespace vh;

namespace inj {
std::atomic<int> pfail{0}, pdelay{0}, pspur{0}; std::atomic<long> fail_after{-1}; std::atomic<uint64_t> seed{1}; std::atomic<long> created{0}, live{0}, failed{0}, delays{0}, spurious{0}; std::atomic<int> err{EAGAIN};
static uint64_t rnd() { uint64_t x = seed.fetch_add(0x9E3779B97F4A7C15ull); x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; return x ^ (x >> 31); }
static void delay() { int p = pdelay.load(std::memory_order_relaxed); if (!p) return; uint64_t v = rnd(); if (int(v % 100) >= p) return; delays++; v >> 8 & 1 ? (void)sched_yield() : (void)usleep(useconds_t((v >> 9) % 300)); }
struct Start { void* (*f)(void*); void* a; };
static void* tramp(void* p) { Start s = *(Start*)p; delete (Start*)p; delay(); s.f(s.a); live--; return nullptr; }
}
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); long __real_syscall(long, ...);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  bool fail = inj::pfail && int(inj::rnd() % 100) < inj::pfail; if (inj::fail_after >= 0 && inj::fail_after.fetch_sub(1) <= 0) { inj::fail_after = 0; fail = true; }
  if (fail) { inj::failed++; return inj::err; }
  inj::delay(); inj::live++; int rc = __real_pthread_create(t, a, inj::tramp, new inj::Start{f, arg}); if (rc) inj::live--; else inj::created++; return rc; }
long __wrap_syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex) { int op = int(a[1]) & 127; inj::delay(); if (op == FUTEX_WAIT && inj::pspur && int(inj::rnd() % 100) < inj::pspur) { inj::spurious++; errno = inj::rnd() & 1 ? EINTR : EAGAIN; return inj::rnd() & 1 ? 0 : -1; } }
  return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]); }
}

#include <cstdarg>
namespace {
std::string fmt(const char* f, ...) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
uint32_t pooled() { return bl_thread_pool_global()->pooled_thread_count(); }
bool wait_live(long n, int ms) { for (int i = 0; i < ms * 2; i++) { if (inj::live.load() <= n) return true; usleep(500); } return false; }
void faults(Rng& r, bool on) { inj::seed = r.u64(); inj::pdelay = r.chance(1, 2) ? int(r.below(60)) : 0; inj::pspur = r.chance(1, 2) ? int(r.below(60)) : 0; bool f = on && r.chance(1, 2); inj::pfail = f && r.chance(1, 2) ? int(r.range(5, 100)) : 0; inj::fail_after = f && !inj::pfail ? long(r.below(20)) : -1; inj::err = r.chance(1, 2) ? EAGAIN : r.chance(1, 2) ? ENOMEM : EPERM; }
bool faulty() { return inj::pfail || inj::fail_after >= 0; }
void no_faults() { inj::pfail = 0; inj::fail_after = -1; }
void set_futex(Rng& r) { bl_runtime_context.features_info.futex_enabled = r.chance(3, 4); count(bl_runtime_context.features_info.futex_enabled ? "p32_futex_cases" : "p32_portable_cases"); }
void drain(const char* when) { // Everything is back in the pool: cleanup ends all threads.
  no_faults(); bl_runtime_cleanup(BL_RUNTIME_CLEANUP_THREAD_POOL); evals(); VH_CHECK(wait_live(0, 5000), "threads-left", "%s: %ld threads alive 5 s after the cleanup of the idle pool (pooled %u)", when, inj::live.load(), pooled()); VH_CHECK(pooled() == 0, "pooled-after-cleanup", "%s: %u", when, pooled()); }

// ---- the pool itself --------------------------------------------------------------------------------------------
struct Work { std::atomic<int> runs{0}; std::atomic<int>* pending; std::atomic<BLThread*> on{nullptr}; };
void BL_CDECL work_fn(BLThread* t, void* d) noexcept { Work* w = (Work*)d; inj::delay(); w->on = t; w->runs++; w->pending->fetch_sub(1); }
void run_all(Rng& r, std::vector<BLThread*>& th, const char* when) {
  size_t rounds = 1 + r.below(3); for (size_t k = 0; k < rounds; k++) {
    std::atomic<int> pending{int(th.size())}; std::vector<std::unique_ptr<Work>> ws;
    for (BLThread* t : th) { ws.emplace_back(new Work); ws.back()->pending = &pending; BLResult e; int tries = 0; while ((e = t->run(work_fn, ws.back().get())) == BL_ERROR_BUSY && tries < 20000) { tries++; usleep(100); } VH_CHECK(e == BL_SUCCESS, "run", "%s: %u", when, e); }
    for (int i = 0; i < 100000 && pending.load() > 0; i++) usleep(i < 100 ? 20 : 200);
    VH_CHECK(pending.load() == 0, "lost-work", "%s: %d of %zu works never ran", when, pending.load(), th.size());
    for (size_t i = 0; i < ws.size(); i++) { VH_CHECK(ws[i]->runs == 1, "work-count", "%s: a work ran %d times", when, ws[i]->runs.load()); VH_CHECK(ws[i]->on == th[i], "work-thread", "%s", when); }
    count("p32_works", ws.size()); } }
void case_pool(uint64_t id, Rng& r) {
  set_futex(r); bool isolated = r.chance(1, 4); BLThreadPool* tp = isolated ? bl_thread_pool_create() : bl_thread_pool_global(); uint32_t cap = tp->max_thread_count(); long base = inj::created.load(), cleaned = 0; std::vector<std::vector<BLThread*>> held; long nheld = 0; std::set<BLThread*> all; char when[96]; Hash h;
  VH_CHECK(tp->pooled_thread_count() == 0, "start", "pool isn't empty"); bool big = r.chance(1, 4); uint32_t refs = 0;
  for (int op = 0, n = 4 + int(r.below(30)); op < n; op++) {
    snprintf(when, sizeof when, "case %llu op %d", (unsigned long long)id, op); int k = int(r.below(8)); h.add(uint64_t(k));
    if (k < 3) { uint32_t want = uint32_t(big ? r.range(1, 80) : r.range(1, 9)), fl = r.chance(1, 2) ? BL_THREAD_POOL_ACQUIRE_FLAG_ALL_OR_NOTHING : 0; std::vector<BLThread*> th(want, (BLThread*)0x10); BLResult why = 0xDEAD; faults(r, true); bool f = faulty(); long c0 = inj::created, f0 = inj::failed; uint32_t p0 = tp->pooled_thread_count();
      uint32_t got = tp->acquire_threads(th.data(), want, fl, &why); bool failed = inj::failed != f0; no_faults(); evals(); (void)f; uint32_t avail = cap - uint32_t(nheld); h.add(got); h.add(failed);
      VH_CHECK(got <= want && got <= avail, "acquire-count", "%s: %u of %u threads, %u available", when, got, want, avail);
      if (fl) VH_CHECK(got == want || got == 0, "all-or-nothing", "%s: %u of %u", when, got, want);
      if (!failed) { VH_CHECK(got == (fl && want > avail ? 0 : std::min(want, avail)), "acquire-count", "%s: %u of %u threads, %u available, flags %u", when, got, want, avail, fl); VH_CHECK(why == (fl && want > avail ? BL_ERROR_THREAD_POOL_EXHAUSTED : BL_SUCCESS), "acquire-reason", "%s: %u", when, why); VH_CHECK(inj::created - c0 == (got > p0 ? long(got - p0) : 0), "acquire-created", "%s: %ld created for %u, %u were idle", when, inj::created - c0, got, p0); }
      else { count("p32_failed_acquires"); if (got < want) VH_CHECK(why != BL_SUCCESS, "acquire-reason", "%s: %u of %u and no reason", when, got, want); if (!fl) VH_CHECK(got >= std::min(want, p0), "acquire-count", "%s: %u although %u were idle", when, got, p0); }
      th.resize(got); for (BLThread* t : th) { VH_CHECK(t && t != (BLThread*)0x10, "acquire-thread", "%s: invalid thread", when); VH_CHECK(all.insert(t).second, "thread-twice", "%s: a thread is owned twice", when); } nheld += got; if (got) { held.push_back(th); if (r.chance(2, 3)) run_all(r, held.back(), when); } count("p32_acquires"); }
    else if (k < 6 && !held.empty()) { size_t i = r.below(held.size()); auto& th = held[i]; if (r.chance(1, 3)) run_all(r, th, when); uint32_t m = r.chance(1, 3) ? 1 + uint32_t(r.below(th.size())) : uint32_t(th.size()); faults(r, false); tp->release_threads(th.data(), m); for (uint32_t x = 0; x < m; x++) all.erase(th[x]); nheld -= m; th.erase(th.begin(), th.begin() + m); if (th.empty()) held.erase(held.begin() + long(i)); count("p32_releases"); }
    else if (k == 6) { uint32_t p0 = tp->pooled_thread_count(); uint32_t c = tp->cleanup(); VH_CHECK(c == p0, "cleanup-count", "%s: %u instead of %u", when, c, p0); cleaned += c; VH_CHECK(wait_live(isolated ? long(nheld) : long(nheld), 5000), "cleanup-threads", "%s: %ld alive, %ld acquired", when, inj::live.load(), nheld); count("p32_cleanups"); }
    else if (k == 7 && r.chance(1, 2)) { if (refs && r.chance(1, 2)) { tp->release(); refs--; } else { VH_CHECK(tp->add_ref() == tp, "add-ref", "%s", when); refs++; } }
    VH_CHECK(long(tp->pooled_thread_count()) == inj::created - base - cleaned - nheld, "thread-accounting", "%s: %u idle, but %ld created, %ld ended, %ld acquired", when, tp->pooled_thread_count(), inj::created - base, cleaned, nheld);
  }
  snprintf(when, sizeof when, "case %llu end", (unsigned long long)id); while (!held.empty()) { tp->release_threads(held.back().data(), uint32_t(held.back().size())); held.pop_back(); } while (refs) { tp->release(); refs--; } no_faults();
  if (isolated) { tp->release(); evals(); VH_CHECK(wait_live(0, 5000), "threads-left", "%s: %ld threads alive after the pool was released", when, inj::live.load()); count("p32_isolated"); } else drain(when);
  distinct(h.h);
}

// ---- contexts ---------------------------------------------------------------------------------------------------
struct Scene { uint64_t seed; int n; };
void draw(BLContext& c, uint64_t seed, int n, int w, int h, bool sync_points) {
  Rng r(seed); for (int i = 0; i < n; i++) { BLRgba32 col(r.u32()); BLPath p; uint64_t k = r.below(6); double x = r.dbl(-10, w), y = r.dbl(-10, h);
    switch (k) { case 0: c.fill_rect(BLRect(x, y, r.dbl(1, w), r.dbl(1, h)), col); break; case 1: p.move_to(x, y); for (int q = 0; q < 12; q++) p.line_to(r.dbl(0, w), r.dbl(0, h)); c.fill_path(p, col); break; case 2: c.set_stroke_width(r.dbl(0.5, 9)); c.stroke_circle(x, y, r.dbl(2, 60), col); break; case 3: p.move_to(x, y); p.cubic_to(r.dbl(0, w), r.dbl(0, h), r.dbl(0, w), r.dbl(0, h), r.dbl(0, w), r.dbl(0, h)); c.set_stroke_width(r.dbl(1, 6)); c.stroke_path(p, col); break; case 4: c.fill_circle(x, y, r.dbl(1, 50), col); break; default: c.fill_box(int(x), int(y), int(x) + 30, int(y) + 30, col); }
    bool fl = r.chance(1, 12); if (fl && sync_points) { c.flush(BL_CONTEXT_FLUSH_SYNC); } else if (fl) c.flush(BL_CONTEXT_FLUSH_NO_FLAGS); } }
struct Ctx { BLImage im; BLContext c; uint64_t seed; int n, w, h; uint32_t want; long got; BLContextCreateFlags fl; };
std::string begin_ctx(Rng& r, Ctx& x, bool exclusive, uint32_t avail) {
  x.w = 16 + int(r.below(150)); x.h = 16 + int(r.below(200)); x.seed = r.u64(); x.n = int(r.below(r.chance(1, 4) ? 120 : 14)); x.im.create(x.w, x.h, BL_FORMAT_PRGB32); x.want = uint32_t(r.chance(1, 10) ? r.below(100) : r.chance(1, 4) ? r.range(1, 32) : r.range(1, 5)); BLContextCreateInfo ci{}; ci.thread_count = x.want; uint32_t fl = 0; if (r.chance(1, 3)) fl |= BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC; if (r.chance(1, 8)) fl |= BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL; ci.flags = fl; ci.command_queue_limit = r.chance(1, 3) ? uint32_t(r.below(600)) : 0; x.fl = BLContextCreateFlags(fl);
  long f0 = inj::failed; BLResult e = x.c.begin(x.im, ci); bool failed = inj::failed != f0; if (e != BL_SUCCESS) return fmt("begin gave %u", e); BLVar v; uint64_t tc = 0; x.c.get_property("thread_count", v); v.to_uint64(&tc); uint32_t cap = std::min<uint32_t>(x.want, BL_RUNTIME_MAX_THREAD_COUNT); x.got = long(tc);
  uint32_t err = uint32_t(x.c.accumulated_error_flags());
  if (tc > cap) return fmt("%llu threads instead of at most %u", (unsigned long long)tc, cap);
  if (!x.want && tc) return std::string("threads in a synchronous context");
  if (tc == 1 && (fl & BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC)) return std::string("no fallback to synchronous rendering");
  if (x.want && !tc && !(fl & BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC)) return std::string("synchronous although no fallback was asked for");
  if (exclusive && !failed && x.want) { uint32_t w = cap - 1; if (!(fl & BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL)) w = std::min(w, avail); uint64_t want = w ? w + 1 : fl & BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC ? 0 : 1; if (tc != want) return fmt("%llu threads instead of %llu (asked for %u, %u available)", (unsigned long long)tc, (unsigned long long)want, x.want, avail); if (err) return fmt("error flags 0x%x", err); }
  if (exclusive && failed && !(fl & BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC) && tc < cap && !err) return std::string("a failure to create threads isn't reported");
  return std::string(); }
std::string judge(Ctx& x) { BLImage ref; ref.create(x.w, x.h, BL_FORMAT_PRGB32); { BLContext c(ref); c.clear_all(); draw(c, x.seed, x.n, x.w, x.h, false); } BLImageData a, b; ref.get_data(&a); x.im.get_data(&b); for (int y = 0; y < x.h; y++) if (memcmp((char*)a.pixel_data + y * a.stride, (char*)b.pixel_data + y * b.stride, size_t(x.w) * 4)) return fmt("%dx%d, %d operations, %ld threads: row %d differs from synchronous rendering", x.w, x.h, x.n, x.got, y); return std::string(); }
void case_ctx(uint64_t id, Rng& r) {
  set_futex(r); char when[96]; snprintf(when, sizeof when, "case %llu", (unsigned long long)id); long base = inj::created; Hash h;
  if (r.chance(1, 2)) { // one user thread, several contexts alive
    std::vector<std::unique_ptr<Ctx>> cs; long used = 0, iso = 0;
    for (int op = 0, n = 3 + int(r.below(14)); op < n; op++) { int k = int(r.below(4)); h.add(uint64_t(k)); faults(r, true);
      if (k < 2 && cs.size() < 6) { auto x = std::make_unique<Ctx>(); long c0 = inj::created; std::string m = begin_ctx(r, *x, true, 64 - uint32_t(used)); no_faults(); evals(); VH_CHECK(m.empty(), "context-threads", "%s op %d: %s", when, op, m.c_str()); long w = x->got > 0 ? x->got - 1 : 0; if (!(x->fl & BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL)) used += w; else iso += inj::created - c0; h.add(uint64_t(x->got)); x->c.clear_all(); draw(x->c, x->seed, x->n, x->w, x->h, true); cs.push_back(std::move(x)); count("p32_contexts"); if (cs.back()->got > 1) count("p32_threaded_contexts"); if (cs.back()->want > 1 && cs.back()->got == 0) count("p32_fallbacks"); }
      else if (!cs.empty()) { no_faults(); size_t i = r.below(cs.size()); Ctx& x = *cs[i]; if (k == 2) { x.c.flush(BL_CONTEXT_FLUSH_SYNC); std::string m = judge(x); evals(); VH_CHECK(m.empty(), "pixels-after-flush", "%s op %d: %s", when, op, m.c_str()); count("p32_flushes"); } else { bool isol = x.fl & BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL; x.c.end(); std::string m = judge(x); evals(); VH_CHECK(m.empty(), "pixels-after-end", "%s op %d: %s", when, op, m.c_str()); if (!isol) used -= x.got > 0 ? x.got - 1 : 0; cs.erase(cs.begin() + long(i)); count("p32_ends"); } }
      if (r.chance(1, 10)) { no_faults(); bl_runtime_cleanup(BL_RUNTIME_CLEANUP_THREAD_POOL); VH_CHECK(pooled() == 0, "pooled-after-cleanup", "%s: %u", when, pooled()); } }
    no_faults(); for (auto& x : cs) { x->c.end(); std::string m = judge(*x); evals(); VH_CHECK(m.empty(), "pixels-after-end", "%s: %s", when, m.c_str()); } cs.clear();
  } else { // several user threads
    int nt = 2 + int(r.below(4)); std::vector<std::string> msg; msg.resize(size_t(nt)); std::vector<uint64_t> seeds; for (int i = 0; i < nt; i++) seeds.push_back(r.u64()); faults(r, true); std::vector<std::thread> ts; std::atomic<long> done{0};
    for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { Rng q(seeds[size_t(i)]); for (int k = 0, n = 1 + int(q.below(5)); k < n && msg[size_t(i)].empty(); k++) { Ctx x; std::string m = begin_ctx(q, x, false, 0); if (m.empty()) { x.c.clear_all(); draw(x.c, x.seed, x.n, x.w, x.h, true); if (q.chance(1, 2)) x.c.end(); else x.c.flush(BL_CONTEXT_FLUSH_SYNC); m = judge(x); x.c.reset(); done++; } msg[size_t(i)] = m; if (q.chance(1, 10)) bl_runtime_cleanup(BL_RUNTIME_CLEANUP_THREAD_POOL); } });
    for (auto& t : ts) t.join(); no_faults(); count("p32_concurrent_contexts", uint64_t(done.load())); for (auto& m : msg) { evals(); VH_CHECK(m.empty(), "concurrent-contexts", "%s: %s", when, m.c_str()); } h.add(uint64_t(nt)); h.add(uint64_t(done.load())); }
  count("p32_threads_created", uint64_t(inj::created - base)); drain(when); distinct(h.h);
}
}
void vh_init() { BLImage im(8, 8, BL_FORMAT_PRGB32); BLContext c(im); c.end(); drain("start"); }
void vh_finish() { count("p32_failed_creations", uint64_t(inj::failed.load())); count("p32_delays", uint64_t(inj::delays.load())); count("p32_spurious_wakeups", uint64_t(inj::spurious.load())); }
void vh_case(uint64_t id, Rng& r) { no_faults(); if (r.chance(1, 2)) case_pool(id, r); else case_ctx(id, r); }
