// P11: every operation with each of its allocations failing; P10: everything that was acquired is released exactly once.
// malloc, calloc, realloc and free of the library are wrapped at link time: they count, fail on request and keep a ledger.
#include "vh.h"
#include <atomic>
#include <thread>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/stat.h>
using namespace vh;

extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); }
namespace led {
std::atomic<bool> track{false}, inject{false}; std::atomic<long> n{0}, failed{0}; long at = -1; bool forever = false;
std::mutex mu; struct Rec { size_t size; void* bt[8]; int depth; }; std::map<void*, Rec> live; std::atomic<uint64_t> total{0};
static bool should_fail() { if (!inject.load(std::memory_order_relaxed)) return false; long i = n.fetch_add(1); bool f = i == at || (forever && at >= 0 && i >= at); if (f) { failed++; if (getenv("VH_BT")) { bool t = track; track = false; inject = false; void* bt[12]; int k = backtrace(bt, 12); backtrace_symbols_fd(bt, k, 2); track = t; inject = true; } } return f; }
thread_local bool inside = false; // A backtrace may allocate.
static void add(void* p, size_t s) { if (!p || inside || !track.load(std::memory_order_relaxed)) return; total++; std::lock_guard<std::mutex> g(mu); inside = true; Rec& r = live[p]; r.size = s; r.depth = st().verbose ? backtrace(r.bt, 8) : 0; inside = false; }
static void del(void* p) { if (!p || inside || !track.load(std::memory_order_relaxed)) return; std::lock_guard<std::mutex> g(mu); live.erase(p); }
static void begin() { std::lock_guard<std::mutex> g(mu); live.clear(); track = true; }
}
extern "C" {
void* __wrap_malloc(size_t s) { if (led::should_fail()) return nullptr; void* p = __real_malloc(s); led::add(p, s); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (led::should_fail()) return nullptr; void* p = __real_calloc(a, b); led::add(p, a * b); return p; }
void* __wrap_realloc(void* o, size_t s) { if (led::should_fail()) return nullptr; led::del(o); void* p = __real_realloc(o, s); led::add(p, s); return p; }
void __wrap_free(void* p) { led::del(p); __real_free(p); }
}

namespace {
BLFontFace g_face[2]; BLFont g_font[2]; BLArray<uint8_t> g_fontbytes[2]; BLArray<uint8_t> g_img[6]; int g_nimg = 0; std::string g_file;

struct Ext { std::atomic<int> live{0}, freed{0}; }; Ext g_ext;
void BL_CDECL ext_free(void* impl, void* ext, void* user) noexcept { (void)impl; (void)user; g_ext.freed++; __real_free(ext); }
void* ext_alloc(size_t n) { g_ext.live++; return __real_malloc(n ? n : 1); }

// The values an operation works with, and second handles that share them.
struct S {
  BLString str, str2; BLArray<uint32_t> a, a2; BLArray<BLString> sa, sa2; BLArray<uint8_t> bytes; BLPath p, p2; BLGradient g, g2; BLBitSet bs, bs2; BLBitArray ba, ba2; BLImage im, im2, out; BLPattern pat, pat2; BLVar var; BLStrokeOptions so, so2;
  BLGlyphBuffer gb; BLFontFace face; BLFont font, font2; BLFontFeatureSettings fs, fs2; BLFontVariationSettings vs, vs2; BLFontManager fm; BLArray<BLFontFace> faces; BLFontData fd;
  BLString hstr; BLArray<uint32_t> ha; BLArray<BLString> hsa; BLPath hp; BLGradient hg; BLBitSet hbs; BLBitArray hba; BLImage him; BLPattern hpat; BLFontFeatureSettings hfs; BLFontVariationSettings hvs;
};
void rnd_str(Rng& r, BLString& s, size_t mx) { size_t n = r.skew(mx); for (size_t i = 0; i < n; i++) s.append(char('a' + r.below(26))); }
void rnd_path(Rng& r, BLPath& p, int mx) { int n = int(r.below(uint64_t(mx))); p.move_to(r.dbl(0, 60), r.dbl(0, 60)); for (int i = 0; i < n; i++) switch (r.below(6)) { case 0: case 1: p.line_to(r.dbl(0, 60), r.dbl(0, 60)); break; case 2: p.quad_to(r.dbl(0, 60), r.dbl(0, 60), r.dbl(0, 60), r.dbl(0, 60)); break; case 3: p.cubic_to(r.dbl(0, 60), r.dbl(0, 60), r.dbl(0, 60), r.dbl(0, 60), r.dbl(0, 60), r.dbl(0, 60)); break; case 4: p.add_rect(r.dbl(0, 30), 3, 20, r.dbl(1, 30)); break; default: p.close(); p.move_to(r.dbl(0, 60), r.dbl(0, 60)); } }
void rnd_grad(Rng& r, BLGradient& g) { switch (r.below(3)) { case 0: g.create(BLLinearGradientValues(1, 2, r.dbl(3, 40), 40)); break; case 1: g.create(BLRadialGradientValues(20, 20, 15, 16, r.dbl(5, 30))); break; default: g.create(BLConicGradientValues(20, 20, r.dbl(0, 6))); } int n = int(r.below(9)); for (int i = 0; i < n; i++) g.add_stop(r.chance(1, 5) ? double(r.below(2)) : r.unit(), BLRgba32(r.u32())); if (r.chance(1, 3)) g.rotate(0.5); }
void rnd_bits(Rng& r, BLBitSet& b) { int n = int(r.below(40)); for (int i = 0; i < n; i++) { uint32_t s = uint32_t(r.chance(1, 2) ? r.below(300) : r.u32() >> r.below(20)); if (r.chance(1, 3)) b.add_range(s, s + 1 + uint32_t(r.below(100))); else b.add_bit(s == 0xFFFFFFFFu ? 5 : s); } }
void rnd_img(Rng& r, BLImage& im, int mx = 40) { int w = 1 + int(r.below(uint64_t(mx))), h = 1 + int(r.below(uint64_t(mx))); static const BLFormat fm[] = {BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}; BLFormat f = fm[r.below(4)]; int bpp = f == BL_FORMAT_A8 ? 1 : 4;
  if (r.chance(1, 4)) { intptr_t stride = w * bpp + intptr_t(r.below(3)) * 4; uint8_t* d = (uint8_t*)ext_alloc(size_t(stride) * size_t(h)); memset(d, 0x40, size_t(stride) * size_t(h)); if (im.create_from_data(w, h, f, d, stride, BL_DATA_ACCESS_RW, ext_free, d) != BL_SUCCESS) { __real_free(d); g_ext.live--; } return; }
  BLImageData d; if (im.create(w, h, f) != BL_SUCCESS || im.make_mutable(&d) != BL_SUCCESS) return; for (int y = 0; y < h; y++) for (int x = 0; x < w * bpp; x++) ((uint8_t*)d.pixel_data + y * d.stride)[x] = uint8_t(bpp == 1 ? r.u32() : x % 4 == 3 ? 255 : r.u32()); }

void build(Rng r, S& s, int grp) {
  bool share = r.chance(1, 2);
  switch (grp) {
    case 0: rnd_str(r, s.str, 80); rnd_str(r, s.str2, 80); if (share) s.hstr = s.str; break;
    case 1: { size_t n = r.skew(60); for (size_t i = 0; i < n; i++) s.a.append(r.u32()); n = r.skew(60); for (size_t i = 0; i < n; i++) s.a2.append(r.u32()); if (r.chance(1, 4)) { size_t k = 1 + r.below(20); uint32_t* d = (uint32_t*)ext_alloc(k * 4); for (size_t i = 0; i < k; i++) d[i] = uint32_t(i * 7); s.a.assign_external_data(d, k, k, r.chance(1, 2) ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ, ext_free, d); }
      n = r.skew(10); for (size_t i = 0; i < n; i++) { BLString t; rnd_str(r, t, 40); s.sa.append(t); } n = r.skew(10); for (size_t i = 0; i < n; i++) { BLString t; rnd_str(r, t, 40); s.sa2.append(t); } if (share) { s.ha = s.a; s.hsa = s.sa; } break; }
    case 2: case 3: rnd_path(r, s.p, 30); rnd_path(r, s.p2, 30); if (r.chance(1, 5)) s.p.reset(); s.so.width = r.dbl(0.5, 5); s.so.set_caps(BLStrokeCap(r.below(6))); s.so.join = uint8_t(r.below(4)); if (r.chance(1, 2)) { s.so.dash_array.append(r.dbl(1, 9)); s.so.dash_array.append(2.0); } s.so2 = s.so; if (share) s.hp = s.p; break;
    case 4: rnd_grad(r, s.g); rnd_grad(r, s.g2); if (share) s.hg = s.g; break;
    case 5: rnd_bits(r, s.bs); rnd_bits(r, s.bs2); { size_t n = r.skew(400); for (size_t i = 0; i < n; i++) s.ba.append_bit(r.chance(1, 2)); n = r.skew(400); for (size_t i = 0; i < n; i++) s.ba2.append_bit(r.chance(1, 2)); } if (share) { s.hbs = s.bs; s.hba = s.ba; } break;
    case 6: case 9: case 10: rnd_img(r, s.im); rnd_img(r, s.im2); if (r.chance(1, 2)) rnd_img(r, s.out); s.pat.create(s.im2); if (r.chance(1, 2)) s.pat.rotate(1.0); s.pat2.create(s.im); rnd_str(r, s.str, 40); if (r.chance(1, 2)) s.bytes.append(uint8_t(1)); if (share) { s.him = s.im; s.hpat = s.pat; } if (grp != 6) { rnd_path(r, s.p, 20); rnd_path(r, s.p2, 60); rnd_grad(r, s.g); s.so.width = 2; } break;
    case 7: { int n = int(r.below(12)); for (int i = 0; i < n; i++) { s.fs.set_value(BL_MAKE_TAG('a' + r.below(26), 'b', 'c' + r.below(5), 'd'), uint32_t(r.below(3))); s.vs.set_value(BL_MAKE_TAG('a' + r.below(26), 'b', 'c' + r.below(5), 'd'), float(r.below(30))); } n = int(r.below(12)); for (int i = 0; i < n; i++) s.fs2.set_value(BL_MAKE_TAG('x', 'b', 'c' + r.below(9), 'd'), 1); if (share) { s.hfs = s.fs; s.hvs = s.vs; } s.font = g_font[r.below(2)]; break; }
    case 8: { size_t k = r.below(2); s.face = g_face[k]; s.font = g_font[k]; if (r.chance(1, 2)) s.gb.set_utf8_text("previous"); rnd_str(r, s.str, 90); if (r.chance(1, 2)) s.str.append("AVToffi"); if (r.chance(1, 3)) s.fd.create_from_data(g_fontbytes[k]); break; }
  }
}
uint64_t hp(const BLPath& p) { Hash h; h.add(p.size()); if (p.size()) { h.add(p.command_data(), p.size()); for (size_t i = 0; i < p.size(); i++) if (p.command_data()[i] != BL_PATH_CMD_CLOSE) h.add(p.vertex_data()[i]); } return h.h; }
uint64_t hi(const BLImage& im) { Hash h; BLImageData d{}; if (im.is_empty()) return 1; if (im.get_data(&d) != BL_SUCCESS) return 2; h.add(d.size).add(d.format); for (int y = 0; y < d.size.h; y++) h.add((const uint8_t*)d.pixel_data + y * d.stride, size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); return h.h; }
uint64_t hs(const BLString& s) { VH_CHECK(s.data()[s.size()] == 0, "invalid-value", "a string isn't null terminated"); return hash_bytes(s.data(), s.size()) + s.size(); }
uint64_t hg(const BLGradient& g) { Hash h; h.add(g.type()).add(g.extend_mode()).add(g.size()).add(g.transform_type()); for (size_t i = 0; i < g.size(); i++) h.add(g.stops()[i]); BLMatrix2D m = g.transform(); h.add(m); for (size_t i = 0; i < 6; i++) { double v = g.value(i); h.add(v); } return h.h; }
uint64_t hbs(const BLBitSet& b) { Hash h; h.add(b.cardinality()); for (uint32_t i = 0; i < 420; i++) h.add(b.has_bit(i)); for (uint32_t i = 0; i < 32; i++) h.add(b.cardinality_in_range(0, (1u << i) + 1)).add(b.cardinality_in_range(1u << i, ~0u >> (31 - i))); for (uint32_t k = 0; k < 60; k++) h.add(b.cardinality_in_range(k * 2000, k * 2000 + 2000)); return h.h; }
uint64_t hba(const BLBitArray& b) { Hash h; h.add(b.size()).add(b.cardinality()); if (b.size()) h.add(b.data(), (b.size() + 31) / 32 * 4); return h.h; }
uint64_t ha(const BLArray<uint32_t>& a) { Hash h; h.add(a.size()); h.add(a.data(), a.size() * 4); return h.h; }
uint64_t hsa(const BLArray<BLString>& a) { Hash h; h.add(a.size()); for (size_t i = 0; i < a.size(); i++) h.add(hs(a[i])); return h.h; }
uint64_t hgb(const BLGlyphBuffer& gb) { Hash h; h.add(gb.size()).add(gb.flags()); for (size_t i = 0; i < gb.size(); i++) { h.add(gb.content()[i]); if (gb.placement_data()) h.add(gb.placement_data()[i].placement).add(gb.placement_data()[i].advance); } return h.h; }
template<class V> uint64_t hset(const V& v, bool) { (void)v; return 0; }
uint64_t hfs(const BLFontFeatureSettings& f) { Hash h; BLFontFeatureSettingsView v; f.get_view(&v); h.add(v.size); for (size_t i = 0; i < v.size; i++) h.add(v.data[i].tag).add(v.data[i].value); return h.h; }
uint64_t hvs(const BLFontVariationSettings& f) { Hash h; BLFontVariationSettingsView v; f.get_view(&v); h.add(v.size); for (size_t i = 0; i < v.size; i++) h.add(v.data[i].tag).add(v.data[i].value); return h.h; }
uint64_t hpat(const BLPattern& p) { Hash h; BLMatrix2D m = p.transform(); h.add(p.area()).add(p.extend_mode()).add(m).add(hi(p.get_image())); return h.h; }
uint64_t hfont(const BLFont& f) { Hash h; h.add(f.size()).add(f.face()._d.impl).add(hfs(f.feature_settings())).add(hvs(f.variation_settings())); return h.h; }

// Digests: [0] values the operation may change, [1] everything else.
struct Dig { uint64_t own[20]; int n = 0; uint64_t rest = 0; void o(uint64_t v) { own[n++] = v; } };
Dig digest(const S& s, int grp) {
  Dig d; Hash h;
  switch (grp) {
    case 0: d.o(hs(s.str)); h.add(hs(s.str2)).add(hs(s.hstr)); break;
    case 1: d.o(ha(s.a)); d.o(hsa(s.sa)); h.add(ha(s.a2)).add(hsa(s.sa2)).add(ha(s.ha)).add(hsa(s.hsa)); break;
    case 2: case 3: d.o(hp(s.p)); { Hash q; q.add(s.so.width).add(s.so.hints).add(s.so.dash_array.size()); for (double v : s.so.dash_array) q.add(v); d.o(q.h); } h.add(hp(s.p2)).add(hp(s.hp)); break;
    case 4: d.o(hg(s.g)); h.add(hg(s.g2)).add(hg(s.hg)); break;
    case 5: d.o(hbs(s.bs)); d.o(hba(s.ba)); h.add(hbs(s.bs2)).add(hba(s.ba2)).add(hbs(s.hbs)).add(hba(s.hba)); break;
    case 6: d.o(hi(s.im)); d.o(hi(s.out)); d.o(hpat(s.pat)); d.o(hash_bytes(s.bytes.data(), s.bytes.size())); h.add(hi(s.im2)).add(hi(s.him)).add(hpat(s.hpat)).add(hpat(s.pat2)); break;
    case 7: d.o(hfs(s.fs)); d.o(hvs(s.vs)); d.o(hfont(s.font)); h.add(hfs(s.fs2)).add(hfs(s.hfs)).add(hvs(s.hvs)); break;
    case 8: d.o(hgb(s.gb)); d.o(hp(s.p)); d.o(hbs(s.bs)); d.o(s.font2.is_valid() ? hfont(s.font2) : 0); d.o(s.fm.face_count()); { Hash q; q.add(s.faces.size()); for (auto& f : s.faces) q.add(f.glyph_count()); d.o(q.h); } d.o(ha(s.a)); d.o(s.fd.is_valid() ? s.fd.face_count() : 77); h.add(hs(s.str)); break;
    case 9: case 10: d.o(hi(s.im)); h.add(hi(s.im2)).add(hp(s.p)).add(hg(s.g)).add(hi(s.him)); break;
  }
  d.rest = h.h; return d;
}

struct Op { const char* name; int grp; std::function<BLResult(S&, Rng&)> fn; };
// A path operation that consists of several appended segments may stop after some of them.
std::vector<Op> g_ops;
#define OP(NAME, GRP, ...) g_ops.push_back(Op{NAME, GRP, [](S& s, Rng& r) -> BLResult { (void)s; (void)r; __VA_ARGS__ }})
const char* kLong = "a rather long text that doesn't fit into any static storage of a small string";

void make_ops() {
  // Strings.
  OP("string.assign", 0, return s.str.assign(r.chance(1, 2) ? kLong : "abc"););
  OP("string.append", 0, return s.str.append(r.chance(1, 2) ? kLong : "abc"););
  OP("string.append-char", 0, return s.str.append('c', r.below(60)););
  OP("string.append-shared", 0, return s.str.append(s.str2););
  OP("string.append-self", 0, return s.str.append(s.str););
  OP("string.insert", 0, return s.str.insert(r.below(s.str.size() + 1), kLong););
  OP("string.insert-char", 0, return s.str.insert(r.below(s.str.size() + 1), 'x', r.below(60)););
  OP("string.prepend", 0, return s.str.prepend(kLong););
  OP("string.reserve", 0, return s.str.reserve(r.below(300)););
  OP("string.shrink", 0, return s.str.shrink(););
  OP("string.resize", 0, return s.str.resize(r.below(200), 'z'););
  OP("string.truncate", 0, return s.str.truncate(r.below(60)););
  OP("string.remove", 0, return s.str.remove(BLRange{r.below(s.str.size() + 1), SIZE_MAX}););
  OP("string.remove-mid", 0, size_t a = r.below(s.str.size() + 1); return s.str.remove(BLRange{a, a + r.below(10)}););
  OP("string.assign-deep", 0, return s.str.assign_deep(s.str2););
  OP("string.assign-format", 0, return s.str.assign_format("%s-%d-%s", kLong, 12, r.chance(1, 2) ? kLong : ""););
  OP("string.append-format", 0, return s.str.append_format("%s-%d", r.chance(1, 2) ? kLong : "q", 12345););
  OP("string.make-mutable", 0, char* d = nullptr; BLResult e = s.str.make_mutable(&d); if (e == BL_SUCCESS && s.str.size()) d[0] = '!'; return e;);
  OP("string.modify", 0, char* d = nullptr; size_t n = r.below(100); BLResult e = s.str.modify_op(BLModifyOp(r.below(2) ? BL_MODIFY_OP_APPEND_GROW : BL_MODIFY_OP_ASSIGN_FIT), n, &d); if (e == BL_SUCCESS) memset(d, 'k', n); return e;);
  OP("string.insert-op", 0, char* d = nullptr; size_t n = r.below(100); BLResult e = s.str.insert_op(r.below(s.str.size() + 1), n, &d); if (e == BL_SUCCESS) memset(d, 'k', n); return e;);
  // Arrays.
  OP("array.append", 1, return s.a.append(7u););
  OP("array.append-many", 1, return s.a.append(7u, 8u, 9u););
  OP("array.append-data", 1, return s.a.append_data(s.a2.view()););
  OP("array.insert", 1, return s.a.insert(r.below(s.a.size() + 1), 5u););
  OP("array.insert-data", 1, return s.a.insert_data(r.below(s.a.size() + 1), s.a2.view()););
  OP("array.replace", 1, if (s.a.is_empty()) return BL_SUCCESS; return s.a.replace(r.below(s.a.size()), 5u););
  OP("array.replace-data", 1, size_t b = r.below(s.a.size() + 1); return s.a.replace_data(BLRange{b, b + r.below(s.a.size() - b + 1)}, s.a2.data(), s.a2.size()););
  OP("array.remove", 1, if (s.a.is_empty()) return BL_SUCCESS; return s.a.remove(r.below(s.a.size())););
  OP("array.remove-range", 1, size_t b = r.below(s.a.size() + 1); return s.a.remove(BLRange{b, b + r.below(s.a.size() - b + 1)}););
  OP("array.resize", 1, return s.a.resize(r.below(120), 9u););
  OP("array.reserve", 1, return s.a.reserve(r.below(200)););
  OP("array.shrink", 1, return s.a.shrink(););
  OP("array.truncate", 1, return s.a.truncate(r.below(40)););
  OP("array.assign-data", 1, return s.a.assign_data(s.a2.view()););
  OP("array.assign-deep", 1, return s.a.assign_deep(s.a2););
  OP("array.make-mutable", 1, uint32_t* d = nullptr; BLResult e = s.a.make_mutable(&d); if (e == BL_SUCCESS && s.a.size()) d[0] = 1; return e;);
  OP("array.modify", 1, uint32_t* d = nullptr; size_t n = r.below(70); BLResult e = s.a.modify_op(BLModifyOp(r.below(2) ? BL_MODIFY_OP_APPEND_GROW : BL_MODIFY_OP_ASSIGN_FIT), n, &d); if (e == BL_SUCCESS) for (size_t i = 0; i < n; i++) d[i] = uint32_t(i); return e;);
  OP("array.external", 1, uint32_t* d = (uint32_t*)ext_alloc(40); memset(d, 1, 40); BLResult e = s.a.assign_external_data(d, 10, 10, BL_DATA_ACCESS_RW, ext_free, d); if (e != BL_SUCCESS) { __real_free(d); g_ext.live--; } return e;);
  OP("array-obj.append", 1, return s.sa.append(BLString(s.sa2.is_empty() ? BLString() : s.sa2[0])););
  OP("array-obj.insert", 1, return s.sa.insert(r.below(s.sa.size() + 1), s.sa2.is_empty() ? BLString() : s.sa2[0]););
  OP("array-obj.insert-data", 1, return s.sa.insert_data(r.below(s.sa.size() + 1), s.sa2.view()););
  OP("array-obj.append-data", 1, return s.sa.append_data(s.sa2.view()););
  OP("array-obj.remove-range", 1, size_t b = r.below(s.sa.size() + 1); return s.sa.remove(BLRange{b, b + r.below(s.sa.size() - b + 1)}););
  OP("array-obj.replace-data", 1, size_t b = r.below(s.sa.size() + 1); return s.sa.replace_data(BLRange{b, b + r.below(s.sa.size() - b + 1)}, s.sa2.data(), s.sa2.size()););
  OP("array-obj.resize", 1, BLString f; if (!s.sa2.is_empty()) f = s.sa2[0]; return s.sa.resize(r.below(30), f););
  OP("array-obj.assign-data", 1, return s.sa.assign_data(s.sa2.view()););
  OP("array-obj.assign-deep", 1, return s.sa.assign_deep(s.sa2););
  OP("array-obj.truncate", 1, return s.sa.truncate(r.below(10)););
  OP("array-obj.reserve", 1, return s.sa.reserve(r.below(50)););
  OP("array-obj.make-mutable", 1, BLString* d = nullptr; return s.sa.make_mutable(&d););
  // Paths.
  OP("path.move-to", 2, return s.p.move_to(1, 2););
  OP("path.line-to", 2, if (s.p.is_empty()) return BL_SUCCESS; return s.p.line_to(1, 2););
  OP("path.poly-to", 2, if (s.p.is_empty()) return BL_SUCCESS; BLPoint q[20]; for (auto& k : q) k.reset(r.dbl(0, 9), 1); return s.p.poly_to(q, 1 + r.below(20)););
  OP("path.cubic-to", 2, if (s.p.is_empty()) return BL_SUCCESS; return s.p.cubic_to(1, 2, 3, 4, 5, 6););
  OP("path.close", 2, if (s.p.is_empty()) return BL_SUCCESS; return s.p.close(););
  OP("path.arc-to", 2, return s.p.arc_to(10, 10, 5, 6, 0, r.dbl(0, 6), true););
  OP("path.elliptic-arc", 2, if (s.p.is_empty()) return BL_SUCCESS; return s.p.elliptic_arc_to(10, 10, 1, r.chance(1, 2), r.chance(1, 2), 50, 60););
  OP("path.arc-quadrant", 2, if (s.p.is_empty()) return BL_SUCCESS; return s.p.arc_quadrant_to(10, 10, 20, 30););
  OP("path.add-rect", 2, return s.p.add_rect(1, 2, 3, 4););
  OP("path.add-round-rect", 2, return s.p.add_round_rect(BLRoundRect(1, 2, 30, 40, 5)););
  OP("path.add-circle", 2, BLMatrix2D m(1, 0.2, 0.3, 1, 5, 6); return r.chance(1, 2) ? s.p.add_circle(BLCircle(1, 2, 3)) : s.p.add_circle(BLCircle(1, 2, 3), m););
  OP("path.add-pie", 2, return s.p.add_pie(BLArc(1, 2, 3, 4, 1, r.dbl(0, 6))););
  OP("path.add-polyline", 2, BLPoint q[30]; for (auto& k : q) k.reset(r.dbl(0, 9), 1); return s.p.add_polyline(q, 1 + r.below(30), BLGeometryDirection(r.below(2) + 1)););
  OP("path.add-rects", 2, BLRect q[9]; for (auto& k : q) k.reset(r.dbl(0, 9), 1, 2, 3); return s.p.add_rect_array(q, 1 + r.below(9), BL_GEOMETRY_DIRECTION_CW););
  OP("path.add-path", 2, return s.p.add_path(s.p2););
  OP("path.add-path-m", 2, return s.p.add_path(s.p2, BLMatrix2D(1, 2, 3, 4, 5, 6)););
  OP("path.add-path-translated", 2, return s.p.add_path(s.p2, BLPoint(3, 4)););
  OP("path.add-geometry-path", 2, const BLPath* q = &s.p2; return s.p.add_geometry(BL_GEOMETRY_TYPE_PATH, q););
  OP("path.add-reversed", 2, return s.p.add_reversed_path(s.p2, BLPathReverseMode(r.below(2))););
  OP("path.add-stroked", 3, return s.p.add_stroked_path(s.p2, s.so, bl_default_approximation_options););
  OP("path.add-stroked-self", 3, return s.p.add_stroked_path(s.p, s.so, bl_default_approximation_options););
  OP("path.set-vertex", 2, if (s.p.is_empty()) return BL_SUCCESS; return s.p.set_vertex_at(0, BL_PATH_CMD_MOVE, 3, 4););
  OP("path.transform", 2, return s.p.transform(BLMatrix2D(1, 2, 3, 4, 5, 6)););
  OP("path.translate", 2, return s.p.translate(BLPoint(5, 6)););
  OP("path.fit-to", 2, return s.p.fit_to(BLRect(1, 2, 30, 40), 0););
  OP("path.remove", 2, size_t b = r.below(s.p.size() + 1); return s.p.remove_range(BLRange{b, b + r.below(s.p.size() - b + 1)}););
  OP("path.reserve", 2, return s.p.reserve(r.below(200)););
  OP("path.shrink", 2, return s.p.shrink(););
  OP("path.assign-deep", 2, return s.p.assign_deep(s.p2););
  OP("path.modify", 2, uint8_t* c; BLPoint* v; size_t n = 1 + r.below(40); BLResult e = s.p.modify_op(BLModifyOp(r.below(2) ? BL_MODIFY_OP_APPEND_GROW : BL_MODIFY_OP_ASSIGN_FIT), n, &c, &v); if (e == BL_SUCCESS) for (size_t i = 0; i < n; i++) { c[i] = BL_PATH_CMD_MOVE; v[i].reset(1, double(i)); } return e;);
  OP("stroke-options.dash", 2, BLArray<double> d; BL_PROPAGATE(d.append(1.0, 2.0, 3.0)); s.so.dash_array = d; return BL_SUCCESS;);
  OP("stroke-options.append-dash", 2, return s.so.dash_array.append(4.0););
  // Gradients.
  OP("gradient.add-stop", 4, return s.g.add_stop(r.unit(), BLRgba32(r.u32())););
  OP("gradient.assign-stops", 4, BLGradientStop st[20]; for (int i = 0; i < 20; i++) st[i] = BLGradientStop(i / 20.0, BLRgba32(r.u32())); return s.g.assign_stops(st, r.below(21)););
  OP("gradient.remove-stop", 4, if (s.g.size() == 0) return BL_SUCCESS; return s.g.remove_stop(r.below(s.g.size())););
  OP("gradient.remove-by-offset", 4, return s.g.remove_stops_by_offset(0.2, 0.7););
  OP("gradient.replace-stop", 4, if (s.g.size() == 0) return BL_SUCCESS; return s.g.replace_stop(r.below(s.g.size()), r.unit(), BLRgba32(r.u32())););
  OP("gradient.reset-stops", 4, return s.g.reset_stops(););
  OP("gradient.reserve", 4, return s.g.reserve(r.below(60)););
  OP("gradient.shrink", 4, return s.g.shrink(););
  OP("gradient.create", 4, BLGradientStop st[20]; for (int i = 0; i < 20; i++) st[i] = BLGradientStop(i / 20.0, BLRgba32(r.u32())); BLMatrix2D m = BLMatrix2D::make_scaling(2, 3); BLLinearGradientValues lv(1, 2, 3, 4); return bl_gradient_create(&s.g, BL_GRADIENT_TYPE_LINEAR, &lv, BL_EXTEND_MODE_REPEAT, st, r.below(21), r.chance(1, 2) ? &m : nullptr););
  OP("gradient.set-type", 4, return s.g.set_type(BLGradientType(r.below(3))););
  OP("gradient.set-values", 4, double v[3] = {1, 2, 3}; return s.g.set_values(0, v, 3););
  OP("gradient.set-value", 4, return s.g.set_value(1, 5.0););
  OP("gradient.set-extend", 4, return s.g.set_extend_mode(BLExtendMode(r.below(3))););
  OP("gradient.rotate", 4, return s.g.rotate(0.3););
  OP("gradient.reset-transform", 4, return s.g.reset_transform(););
  // Bit containers.
  OP("bitset.add-bit", 5, return s.bs.add_bit(uint32_t(r.below(100000))););
  OP("bitset.add-range", 5, uint32_t b = uint32_t(r.below(100000)); return s.bs.add_range(b, b + uint32_t(r.below(1 << r.below(17)))););
  OP("bitset.add-words", 5, uint32_t w[30]; for (auto& x : w) x = r.chance(1, 3) ? 0 : r.u32(); return s.bs.add_words(uint32_t(r.below(300)), w, uint32_t(r.below(31))););
  OP("bitset.assign-words", 5, uint32_t w[30]; for (auto& x : w) x = r.u32(); return s.bs.assign_words(uint32_t(r.below(300)), w, uint32_t(r.below(31))););
  OP("bitset.assign-range", 5, return s.bs.assign_range(uint32_t(r.below(300)), 300 + uint32_t(r.u32() >> 1)););
  OP("bitset.clear-bit", 5, return s.bs.clear_bit(uint32_t(r.below(300))););
  OP("bitset.clear-range", 5, uint32_t b = uint32_t(r.below(300)); return s.bs.clear_range(b, b + uint32_t(r.u32() >> (1 + r.below(30)))););
  OP("bitset.chop", 5, uint32_t b = uint32_t(r.below(300)); return s.bs.chop(b, b + uint32_t(r.u32() >> (1 + r.below(30)))););
  OP("bitset.assign-deep", 5, return s.bs.assign_deep(s.bs2););
  OP("bitset.shrink", 5, return s.bs.shrink(););
  OP("bitset.optimize", 5, return s.bs.optimize(););
  OP("bitset.clear", 5, return s.bs.clear(););
  OP("bitarray.append-bit", 5, return s.ba.append_bit(true););
  OP("bitarray.append-words", 5, uint32_t w[30]; for (auto& x : w) x = r.u32(); return s.ba.append_words(w, uint32_t(r.below(31))););
  OP("bitarray.assign-words", 5, uint32_t w[30]; for (auto& x : w) x = r.u32(); return s.ba.assign_words(w, uint32_t(r.below(31))););
  OP("bitarray.resize", 5, return s.ba.resize(uint32_t(r.below(3000))););
  OP("bitarray.reserve", 5, return s.ba.reserve(uint32_t(r.below(3000))););
  OP("bitarray.shrink", 5, return s.ba.shrink(););
  OP("bitarray.set-bit", 5, if (!s.ba.size()) return BL_SUCCESS; return s.ba.set_bit(uint32_t(r.below(s.ba.size()))););
  OP("bitarray.clear-bit", 5, if (!s.ba.size()) return BL_SUCCESS; return s.ba.clear_bit(uint32_t(r.below(s.ba.size()))););
  OP("bitarray.fill-range", 5, uint32_t b = uint32_t(r.below(s.ba.size() + 1)); return s.ba.fill_range(b, b + uint32_t(r.below(s.ba.size() - b + 1))););
  OP("bitarray.clear-range", 5, uint32_t b = uint32_t(r.below(s.ba.size() + 1)); return s.ba.clear_range(b, b + uint32_t(r.below(s.ba.size() - b + 1))););
  // Images, patterns, codecs.
  OP("image.create", 6, BL_PROPAGATE(s.im.create(1 + int(r.below(40)), 1 + int(r.below(40)), BLFormat(1 + r.below(3)))); BLImageData d; BL_PROPAGATE(s.im.make_mutable(&d)); for (int y = 0; y < d.size.h; y++) memset((uint8_t*)d.pixel_data + y * d.stride, 0x5A, size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); return BL_SUCCESS;);
  OP("image.make-mutable", 6, BLImageData d; BLResult e = s.im.make_mutable(&d); if (e == BL_SUCCESS && d.pixel_data) ((uint8_t*)d.pixel_data)[0] ^= 9; return e;);
  OP("image.convert", 6, return s.im.convert(BLFormat(1 + r.below(3))););
  OP("image.assign-deep", 6, return s.im.assign_deep(s.im2););
  OP("image.external", 6, uint8_t* d = (uint8_t*)ext_alloc(400); memset(d, 1, 400); BLResult e = s.im.create_from_data(10, 10, BL_FORMAT_PRGB32, d, 40, BL_DATA_ACCESS_RW, ext_free, d); if (e != BL_SUCCESS) { __real_free(d); g_ext.live--; } return e;);
  OP("image.scale", 6, return BLImage::scale(s.out, s.im2, BLSizeI(1 + int(r.below(50)), 1 + int(r.below(50))), BLImageScaleFilter(1 + r.below(4))););
  OP("image.scale-self", 6, return BLImage::scale(s.im, s.im, BLSizeI(1 + int(r.below(50)), 1 + int(r.below(50))), BLImageScaleFilter(1 + r.below(4))););
  OP("image.decode", 6, return s.out.read_from_data(g_img[r.below(uint64_t(g_nimg))]););
  OP("image.encode", 6, BLImageCodec c; static const char* nm[] = {"PNG", "BMP", "QOI"}; BL_PROPAGATE(c.find_by_name(nm[r.below(3)])); return s.im.write_to_data(s.bytes, c););
  OP("image.read-file", 6, return s.out.read_from_file(g_file.c_str()););
  OP("image.write-file", 6, std::string f = st().scratch + "/alloc-" + std::to_string(getpid()) + ".png"; BLResult e = s.im.write_to_file(f.c_str()); unlink(f.c_str()); return e;);
  OP("image.decoder", 6, BLImageCodec c; BL_PROPAGATE(c.find_by_data(g_img[0])); BLImageDecoder d; BL_PROPAGATE(c.create_decoder(&d)); BLImageInfo inf; BL_PROPAGATE(d.read_info(inf, g_img[0])); BL_PROPAGATE(d.read_frame(s.out, g_img[0])); return BL_SUCCESS;);
  OP("image.codecs", 6, BLArray<BLImageCodec> c = BLImageCodec::built_in_codecs(); BLImageCodec q; return q.find_by_extension("x.png", c););
  OP("pattern.create", 6, BLMatrix2D m = BLMatrix2D::make_scaling(2); return s.pat.create(s.im2, BLRectI(0, 0, 1, 1), BL_EXTEND_MODE_PAD, m););
  OP("pattern.set-image", 6, return s.pat.set_image(s.im2););
  OP("pattern.set-area", 6, return s.pat.set_area(BLRectI(0, 0, 1, 1)););
  OP("pattern.reset-image", 6, return s.pat.reset_image(););
  OP("pattern.set-extend", 6, return s.pat.set_extend_mode(BLExtendMode(r.below(9))););
  OP("pattern.rotate", 6, return s.pat.rotate(0.4););
  // Font settings and fonts.
  OP("features.set", 7, return s.fs.set_value(BL_MAKE_TAG('a' + r.below(26), 'b', 'c' + r.below(5), 'd'), uint32_t(r.below(3))););
  OP("features.remove", 7, BLFontFeatureSettingsView v; s.fs.get_view(&v); if (!v.size) return BL_SUCCESS; return s.fs.remove_value(v.data[r.below(v.size)].tag););
  OP("features.clear", 7, return s.fs.clear(););
  OP("variations.set", 7, return s.vs.set_value(BL_MAKE_TAG('a' + r.below(26), 'b', 'c' + r.below(5), 'd'), 0.5f););
  OP("variations.remove", 7, BLFontVariationSettingsView v; s.vs.get_view(&v); if (!v.size) return BL_SUCCESS; return s.vs.remove_value(v.data[r.below(v.size)].tag););
  OP("font.create", 7, return s.font.create_from_face(g_face[r.below(2)], 20.0f););
  OP("font.create-features", 7, return s.font.create_from_face(g_face[r.below(2)], 20.0f, s.fs2););
  OP("font.set-size", 7, return s.font.set_size(33.0f););
  OP("font.set-features", 7, return s.font.set_feature_settings(s.fs2););
  OP("font.reset-features", 7, return s.font.reset_feature_settings(););
  // Text.
  OP("glyphs.set-text", 8, return s.gb.set_utf8_text(s.str.data(), s.str.size()););
  OP("glyphs.set-glyphs", 8, uint32_t g[90]; for (auto& x : g) x = uint32_t(r.below(20)); return s.gb.set_glyphs(g, r.below(91)););
  OP("glyphs.shape", 8, BLGlyphBuffer b; BL_PROPAGATE(b.set_utf8_text(s.str.data(), s.str.size())); BL_PROPAGATE(s.font.shape(b)); BLPath p; BL_PROPAGATE(s.font.get_glyph_run_outlines(b.glyph_run(), p)); s.p = p; return BL_SUCCESS;);
  OP("font.metrics", 8, BLGlyphBuffer b; BL_PROPAGATE(b.set_utf8_text(s.str.data(), s.str.size())); BLTextMetrics tm; BL_PROPAGATE(s.font.get_text_metrics(b, tm)); return s.a.append(uint32_t(tm.advance.x)););
  OP("font.outline", 8, BLPath p; BL_PROPAGATE(s.font.get_glyph_outlines(BLGlyphId(r.below(s.face.glyph_count())), p)); s.p = p; return BL_SUCCESS;);
  OP("face.coverage", 8, BLFontFace f; BLFontData d; BL_PROPAGATE(d.create_from_data(g_fontbytes[0])); BL_PROPAGATE(f.create_from_data(d, 0)); return f.get_character_coverage(&s.bs););
  OP("face.tags", 8, BLArray<BLTag> t; BL_PROPAGATE(s.face.get_feature_tags(&t)); BL_PROPAGATE(s.face.get_script_tags(&t)); return s.a.append(uint32_t(t.size())););
  OP("face.create", 8, BLFontData d; BL_PROPAGATE(d.create_from_data(g_fontbytes[r.below(2)])); BLFontFace f; BL_PROPAGATE(f.create_from_data(d, 0)); return s.faces.append(f););
  OP("face.create-external", 8, const BLArray<uint8_t>& b = g_fontbytes[r.below(2)]; uint8_t* p = (uint8_t*)ext_alloc(b.size()); memcpy(p, b.data(), b.size()); BLFontData d; BLResult e = d.create_from_data(p, b.size(), ext_free, p); if (e != BL_SUCCESS) { __real_free(p); g_ext.live--; return e; } BLFontFace f; BL_PROPAGATE(f.create_from_data(d, 0)); return s.faces.append(f););
  OP("face.create-file", 8, BLFontFace f; BL_PROPAGATE(f.create_from_file((st().corpus + "/glyfTest.ttf").c_str(), r.chance(1, 2) ? BL_FILE_READ_MMAP_ENABLED : BL_FILE_READ_NO_FLAGS)); return s.faces.append(f););
  OP("font-data.create", 8, return s.fd.create_from_data(g_fontbytes[r.below(2)]););
  OP("font.create", 8, return s.font2.create_from_face(s.face, 11.0f););
  OP("manager.add", 8, return s.fm.add_face(s.face););
  OP("manager.add-two", 8, BLFontManager m; BL_PROPAGATE(m.create()); BL_PROPAGATE(m.add_face(g_face[0])); BL_PROPAGATE(m.add_face(g_face[1])); BLArray<BLFontFace> l; BL_PROPAGATE(m.query_faces_by_family_name(g_face[0].family_name().view(), l)); s.fm = m; s.faces = l; return BL_SUCCESS;);
}

// Rendering: the calls of one scene. Returns the first error, including those a context accumulates.
BLResult render(BLImage& target, const S& s, Rng r, uint32_t threads) {
  BLContextCreateInfo ci{}; ci.thread_count = threads; if (threads && r.chance(1, 2)) ci.command_queue_limit = 4; BLContext c; BLResult e = c.begin(target, ci); if (e != BL_SUCCESS) return e;
  BLResult first = BL_SUCCESS; auto T = [&](BLResult q) { if (q != BL_SUCCESS && first == BL_SUCCESS) first = q; };
  auto Tr = [&](const char* w, long v) { if (st().verbose) fprintf(stderr, "  %s %ld (error %u)\n", w, v, first); }; T(c.clear_all()); int n = int(r.range(1, 12)), depth = 0;
  for (int i = 0; i < n; i++) {
    uint64_t a = r.below(8), b = 0; Tr("style", long(a)); switch (a) { case 0: T(c.set_fill_style(s.g)); break; case 1: T(c.set_fill_style(s.pat)); break; case 2: T(c.set_fill_style(BLRgba32(r.u32()))); break; case 3: T(c.set_stroke_style(s.g)); break; case 4: T(c.set_stroke_options(s.so)); T(c.set_stroke_width(r.dbl(0.5, 6))); break; case 5: T(c.set_stroke_dash_array(BLArray<double>())); break; default: break; }
    b = r.below(16); Tr("call", long(b)); switch (b) {
      case 0: T(c.fill_path(s.p)); break; case 1: T(c.fill_path(s.p2)); break; case 2: T(c.stroke_path(s.p)); break; case 3: T(c.stroke_path(s.p2)); break;
      case 4: T(c.blit_image(BLPoint(r.dbl(-5, 30), 3), s.im2)); break; case 5: T(c.blit_image(BLRect(2, 3, r.dbl(1, 40), 20), s.im2)); break; case 6: T(c.fill_rect(BLRect(3, 4, r.dbl(1, 40), 20.5))); break; case 7: T(c.fill_utf8_text(BLPoint(2, 30), g_font[r.below(2)], "Afg AV")); break;
      case 8: T(c.stroke_utf8_text(BLPoint(2, 30), g_font[r.below(2)], "Af")); break; case 9: T(c.save()); depth++; break; case 10: if (depth) { T(c.restore()); depth--; } break; case 11: T(c.rotate(0.3)); break; case 12: T(c.clip_to_rect(BLRect(2.5, 3, 20, 20))); break; case 13: if (s.im2.format() == BL_FORMAT_A8) T(c.fill_mask(BLPoint(3, 4), s.im2)); break; case 14: T(c.fill_circle(20, 20, r.dbl(1, 30))); break; default: T(c.flush(BL_CONTEXT_FLUSH_SYNC));
    }
  }
  T(c.flush(BL_CONTEXT_FLUSH_SYNC)); uint32_t fl = c.accumulated_error_flags(); e = c.end(); T(e); if (fl && first == BL_SUCCESS) first = BL_ERROR_OUT_OF_MEMORY; return first;
}
void render_ops() {
  OP("render.sync", 9, return render(s.im, s, Rng(r.u64()), 0););
  OP("render.async", 10, return render(s.im, s, Rng(r.u64()), 1 + uint32_t(r.below(3))););
}
void quiesce() { bl_runtime_cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); }
std::string sym(void* a) { Dl_info i; char t[300]; if (dladdr(a, &i) && i.dli_fname) snprintf(t, sizeof t, "%s+%lx", i.dli_sname ? i.dli_sname : "?", (unsigned long)((char*)a - (char*)i.dli_fbase)); else snprintf(t, sizeof t, "%p", a); return t; }
// All values of the case are gone: nothing may be left.
void check_ledger(const char* op, const char* when) {
  bool any; { std::lock_guard<std::mutex> g(led::mu); any = !led::live.empty(); } for (int i = 0, us = 10, lim = getenv("VH_SKIP") ? 60 : 2000; any && i < lim; i++) { quiesce(); { std::lock_guard<std::mutex> g(led::mu); any = !led::live.empty(); } if (any) { usleep(useconds_t(us)); us = us < 500 ? us * 2 : 1000; } } // Threads that were released return to their pool on their own time.
  led::track = false; std::lock_guard<std::mutex> g(led::mu);
  if (!led::live.empty()) { auto& l = *led::live.begin(); std::string bt; for (int i = 0; i < l.second.depth; i++) bt += " " + sym(l.second.bt[i]); size_t n = led::live.size(), sz = l.second.size; led::live.clear(); fail((std::string("leak:") + op).c_str(), "%zu blocks (one of %zu bytes) allocated in %s%s are never released%s", n, sz, op, when, bt.c_str()); }
  int lv = g_ext.live.load(), fr = g_ext.freed.load(); if (lv != fr) { g_ext.live = 0; g_ext.freed = 0; fail((std::string("callback:") + op).c_str(), "%d external buffers were released %d times (%s%s)", lv, fr, op, when); } g_ext.live = 0; g_ext.freed = 0;
}

void p11(uint64_t id, Rng& r) {
  const Op& op = id % 4 == 3 ? g_ops[g_ops.size() - 1 - id / 4 % 2] : g_ops[(id - id / 4) % g_ops.size()]; // Every fourth case renders.
  uint64_t bs = r.u64(), os = r.u64(); bool async = op.grp == 10; std::string key = op.name;
  // Without failures.
  BLResult want; Dig d0, d1; long allocs;
  led::begin(); { S s; build(Rng(bs), s, op.grp); d0 = digest(s, op.grp); Rng q(os); led::n = 0; led::at = -1; led::failed = 0; led::inject = true; want = op.fn(s, q); led::inject = false; allocs = led::n; d1 = digest(s, op.grp); }
  check_ledger(op.name, "");
  VH_CHECK(d0.rest == d1.rest, ("shared:" + key).c_str(), "%s changed another handle's value", op.name);
  count("p11_ops"); count("p11_allocations_of_ops", uint64_t(allocs));
  if (!allocs) return;
  std::vector<std::pair<long, bool>> pts; for (long k = 0; k < allocs; k++) { if (allocs > 24 && !r.chance(24, uint32_t(allocs))) continue; pts.push_back({k, false}); if (r.chance(1, 3)) pts.push_back({k, true}); }
  for (auto& pt : pts) {
    char when[96]; snprintf(when, sizeof when, " with allocation %ld of %ld failing%s", pt.first + 1, allocs, pt.second ? " and all later ones" : "");
    led::begin();
    { S s; build(Rng(bs), s, op.grp); Rng q(os); led::n = 0; led::at = pt.first; led::forever = pt.second; led::failed = 0; led::inject = true; BLResult e = op.fn(s, q); led::inject = false; bool hit = led::failed > 0;
      Dig d = digest(s, op.grp); VH_CHECK(d.rest == d0.rest, ("shared:" + key).c_str(), "%s%s (%u) changed another handle's value", op.name, when, e);
      bool same = true, before = true; for (int i = 0; i < d.n; i++) { same = same && d.own[i] == d1.own[i]; before = before && d.own[i] == d0.own[i]; }
      if (e == BL_SUCCESS || (e == want && op.grp < 9)) { if (!async || !hit || e == BL_SUCCESS) VH_CHECK(same || (e != BL_SUCCESS && before), ("lost:" + key).c_str(), "%s%s returned %u as without the failure, but the value is %s", op.name, when, e, before ? "the previous one" : "another one"); count(hit ? "p11_survived" : "p11_not_reached"); }
      else {
        VH_CHECK(hit || e == want, ("error:" + key).c_str(), "%s returned %u, %u in an equal run", op.name, e, want);
        VH_CHECK(e == BL_ERROR_OUT_OF_MEMORY || op.grp >= 6, ("code:" + key).c_str(), "%s%s returned %u", op.name, when, e);
        if (op.grp < 9 && !before) { count("p11_partial"); VH_CHECK(op.grp == 6 || op.grp == 3 || op.grp == 8, ("value:" + key).c_str(), "%s%s returned %u and changed the value to %s", op.name, when, e, same ? "the one of a success" : "another one"); }
        count("p11_reported");
        // The same call again, with memory.
        if (before || op.grp >= 9) { Rng q2(os); BLResult e2 = op.fn(s, q2); Dig x = digest(s, op.grp); bool ok = e2 == want; for (int i = 0; i < x.n; i++) ok = ok && x.own[i] == d1.own[i]; VH_CHECK(ok, ("retry:" + key).c_str(), "%s after a failure (%s) returned %u, %u without it; the value %s", op.name, when, e2, want, e2 == want ? "differs" : "was not compared"); count("p11_retries"); }
        else { Rng q2(os + 1); BLResult e2 = op.fn(s, q2); (void)e2; digest(s, op.grp); }
      }
      evals();
    }
    check_ledger(op.name, when); distinct(Hash().add(op.name, strlen(op.name)).add(pt).h); count("p11_faults");
  }
  if (id < 3) sample("%s: %ld allocations, %zu failures tried", op.name, allocs, pts.size());
}
} // namespace

#include "alloc_p10.inc"

void vh_init() {
  make_ops(); render_ops(); const char* f[] = {"/glyfTest.ttf", "/CFFTest.otf"};
  for (int i = 0; i < 2; i++) { std::string p = st().corpus + f[i]; VH_ASSUME(BLFileSystem::read_file(p.c_str(), g_fontbytes[i]) == BL_SUCCESS); BLFontData d; VH_OK(d.create_from_data(g_fontbytes[i]), "init"); VH_OK(g_face[i].create_from_data(d, 0), "init"); VH_OK(g_font[i].create_from_face(g_face[i], 14), "init"); BLBitSet b; g_face[i].get_character_coverage(&b); }
  BLImage im(19, 15, BL_FORMAT_PRGB32); { BLContext x(im); x.fill_all(BLRgba32(0xFF204060)); x.fill_circle(8, 8, 6, BLRgba32(0x80F02010)); x.end(); } static const char* nm[] = {"PNG", "BMP", "QOI"};
  for (int i = 0; i < 3; i++) { BLImageCodec cd; VH_OK(cd.find_by_name(nm[i]), "init"); VH_OK(im.write_to_data(g_img[g_nimg++], cd), "init"); }
  BLArray<uint8_t> j; if (BLFileSystem::read_file((st().corpus + "/small.jpg").c_str(), j) == BL_SUCCESS) g_img[g_nimg++] = j;
  g_file = st().scratch + "/alloc-src-" + std::to_string(getpid()) + ".png"; VH_OK(BLFileSystem::write_file(g_file.c_str(), g_img[0]), "init");
}
void vh_case(uint64_t id, Rng& r) { if (st().mode == "P11") p11(id, r); else p10(id, r); }
void vh_finish() { unlink(g_file.c_str()); }
