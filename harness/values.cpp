// P01: copies are independent values. P07: gradients and patterns. P08: font settings. P09: variants and colors.
#include "vh.h"
#include <limits.h>
#include <limits>
using namespace vh;

typedef std::string Str;
#define RNG(a, b) BLRange{size_t(a), size_t(b)}
static void put(Str& s, const void* p, size_t n) { s.append((const char*)p, n); }
template<typename T> static void putv(Str& s, const T& v) { put(s, &v, sizeof v); }
static Str hexs(const Str& s) { Str o; char b[4]; for (size_t i = 0; i < s.size() && i < 60; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } return o; }

static BLFontFace g_faces[2];
static uint32_t g_ro_pixels[8 * 8]; // read-only external pixels
static BLImage rnd_image(Rng& r) {
  BLImage im; int w = int(r.range(1, 12)), h = int(r.range(1, 12)); BLFormat f = BLFormat(r.range(1, 3)); im.create(w, h, f); BLImageData d; im.make_mutable(&d);
  for (int y = 0; y < h; y++) for (int x = 0; x < w * (f == BL_FORMAT_A8 ? 1 : 4); x++) ((uint8_t*)d.pixel_data)[y * d.stride + x] = uint8_t(r.below(256)); return im;
}
static Str image_digest(const BLImage& im) { Str s; BLImageData d; im.get_data(&d); putv(s, d.size.w); putv(s, d.size.h); putv(s, d.format); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; if (d.format) for (int y = 0; y < d.size.h; y++) put(s, (uint8_t*)d.pixel_data + y * d.stride, d.size.w * bpp); return s; }
static BLMatrix2D rnd_matrix(Rng& r) { BLMatrix2D m = BLMatrix2D::make_identity(); for (int i = 0; i < int(r.below(3)); i++) switch (r.below(4)) { case 0: m.translate(r.range(-20, 20), r.range(-20, 20)); break; case 1: m.scale(r.dbl(0.3, 3)); break; case 2: m.rotate(r.dbl(-3, 3)); break; default: m.skew(r.dbl(-1, 1), 0); } return m; }
static BLGradientStop rnd_stop(Rng& r) { return BLGradientStop(double(r.below(9)) / 8.0, BLRgba64(r.u64())); }
static BLTag rnd_tag(Rng& r, bool var) {
  static const char* F[] = {"kern", "liga", "smcp", "aalt", "salt", "ss01", "ss20", "cv01", "cv99", "zero", "abcd", "ABCD", "  ~~", "calt", "dlig", "hist", "onum", "tnum", "frac", "swsh", "rlig", "ccmp", "locl", "mark", "cswh", "nalt", "ornm", "titl", "hwid", "vert"};
  static const char* V[] = {"wght", "wdth", "slnt", "opsz", "ital", "GRAD", "XTRA", "abcd", "YTLC", "zzzz"};
  const char* t = var ? r.pick(V) : r.pick(F); return BL_MAKE_TAG(uint8_t(t[0]), uint8_t(t[1]), uint8_t(t[2]), uint8_t(t[3]));
}
static Str rnd_str(Rng& r, size_t mx = 40) { Str s; size_t n = r.skew(mx); for (size_t i = 0; i < n; i++) s += char('a' + r.below(26)); return s; }

// ---------------------------------------------------------------- adapters (mutate must be a function of value, seed and argument only)
static BLResult settings_shrink(BLFontFeatureSettings& h) { return bl_font_feature_settings_shrink(&h); }
static BLResult settings_shrink(BLFontVariationSettings& h) { return bl_font_variation_settings_shrink(&h); }
template<typename T> static void cpy(T& a, const T& b) { a = b; }
static void cpy(BLVar& a, const BLVar& b) { a.assign(b); }
struct AString { typedef BLString T; static const char* name() { return "string"; }
  static BLResult mutate(T& h, const T* a, Rng& r) {
    Str s = rnd_str(r); size_t n = h.size(); size_t i = r.below(n + 1), j = i + r.below(n - i + 1); unsigned o = unsigned(r.below(15));
    switch (o) { case 0: return h.assign(s.data(), s.size()); case 1: return h.append(s.data(), s.size()); case 2: return h.append('c', r.below(30)); case 3: return h.prepend(s.data(), s.size()); case 4: return h.insert(i, s.data(), s.size()); case 5: return h.truncate(i); case 6: return h.remove(RNG(i, j)); case 7: return h.clear(); case 8: return h.resize(r.below(60), 'x'); case 9: return h.assign_format("%d-%s", int(r.below(1000)), s.c_str()); case 10: return h.append_format("%d", int(r.below(1000)));
      case 11: { char* d; BLResult q = h.modify_op(BL_MODIFY_OP_APPEND_GROW, s.size(), &d); if (!q) memcpy(d, s.data(), s.size()); return q; }
      case 12: return h.shrink(); case 13: return h.reserve(r.below(200)); default: { char* d; BLResult q = bl_string_make_mutable(&h, &d); if (!q && h.size()) d[r.below(h.size())] = 'Z'; return q; } } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { size_t n = h.size(), i = r.below(n + 1); switch (r.below(6)) { case 0: return h.append(a); case 1: return h.prepend(a); case 2: return h.insert(i, a); case 3: return h.assign_deep(a); case 4: return h.append(a.data(), a.size() / 2); default: return h.insert(i, a.data() + a.size() / 2, a.size() - a.size() / 2); } }
  static Str digest(const T& h) { Str s; putv(s, h.size()); put(s, h.data(), h.size()); s += h.data()[h.size()] ? "!" : "0"; return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
template<typename I> struct AArr { typedef BLArray<I> T; static const char* name() { return sizeof(I) == 1 ? "array<u8>" : "array<double>"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    I b[64]; size_t k = r.skew(64); for (auto& x : b) x = I(r.below(200)); size_t n = h.size(), i = r.below(n + 1), j = i + r.below(n - i + 1);
    switch (r.below(14)) { case 0: return h.append(b[0]); case 1: return h.append_data(b, k); case 2: return h.insert(i, b[0]); case 3: return h.insert_data(i, b, k); case 4: return h.prepend(b[1]); case 5: return i < n ? h.remove(i) : h.clear(); case 6: return h.remove(RNG(i, j)); case 7: return h.resize(r.below(70), b[3]); case 8: return h.truncate(i); case 9: return i < n ? h.replace(i, b[5]) : BL_SUCCESS; case 10: return h.replace_data(RNG(i, j), b, k); case 11: return h.shrink(); case 12: { I* p; BLResult q = h.make_mutable(&p); if (!q && n) p[r.below(n)] = b[9]; return q; } default: return h.reserve(r.below(100)); } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { size_t n = h.size(), i = r.below(n + 1), j = i + r.below(n - i + 1); switch (r.below(5)) { case 0: return h.append_data(a.view()); case 1: return h.assign_deep(a); case 2: return h.append_data(a.view()); case 3: return h.insert_data(i, a.view()); default: return h.replace_data(RNG(i, j), a.data(), a.size()); } }
  static Str digest(const T& h) { Str s; putv(s, h.size()); put(s, h.data(), h.size() * sizeof(I)); return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct AArrObj { typedef BLArray<BLString> T; static const char* name() { return "array<string>"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    Str t = rnd_str(r, 30); BLString s; s.assign(t.data(), t.size()); size_t n = h.size(), i = r.below(n + 1), j = i + r.below(n - i + 1);
    switch (r.below(11)) { case 0: return h.append(s); case 1: return h.insert(i, s); case 2: return i < n ? h.remove(i) : h.clear(); case 3: return h.remove(RNG(i, j)); case 4: return h.resize(r.below(20), s); case 5: return h.truncate(i); case 6: return i < n ? h.replace(i, s) : BL_SUCCESS; case 7: { BLString* p; BLResult q = h.make_mutable(&p); if (!q && n) { p += r.below(n); p->append(t.data(), t.size()); } return q; }
      case 8: { if (!n) return BL_SUCCESS; BLString x(h[r.below(n)]); x.append('x'); return h.append(x); } case 9: return n ? h.append(h[r.below(n)]) : BL_SUCCESS; default: return h.shrink(); } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { size_t n = h.size(), i = r.below(n + 1), j = i + r.below(n - i + 1); switch (r.below(5)) { case 0: return h.append_data(a.view()); case 1: return h.assign_deep(a); case 2: return h.append_data(a.view()); case 3: return h.insert_data(i, a.view()); default: return h.replace_data(RNG(i, j), a.data(), a.size()); } }
  static Str digest(const T& h) { Str s; putv(s, h.size()); for (auto& x : h) { putv(s, x.size()); put(s, x.data(), x.size()); } return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct ABitSet { typedef BLBitSet T; static const char* name() { return "bitset"; }
  static BLResult mutate(T& h, const T*, Rng& r) { uint32_t a = uint32_t(r.below(2000)), b = a + uint32_t(r.skew(900)); if (r.chance(1, 3)) a &= ~127u; switch (r.below(10)) { case 0: case 1: return h.add_bit(a); case 2: return h.add_range(a, b); case 3: return h.clear_bit(a); case 4: return h.clear_range(a, b); case 5: { uint32_t w[8]; for (auto& x : w) x = r.u32(); return h.add_words(a / 32, w, 8); } case 6: return h.assign_range(a, b); case 7: return h.chop(a / 2, b); case 8: return h.optimize(); default: return r.chance(1, 2) ? h.shrink() : h.clear(); } }
  static BLResult mutate2(T& h, const T& a, Rng&) { return h.assign_deep(a); }
  static Str digest(const T& h) { Str s; BLBitSetWordIterator it(h); while (uint32_t w = it.next_word()) { putv(s, it.word_index()); putv(s, w); } return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct ABitArray { typedef BLBitArray T; static const char* name() { return "bitarray"; }
  static BLResult mutate(T& h, const T*, Rng& r) { uint32_t n = h.size(), a = uint32_t(r.below(n + 1)), b = a + uint32_t(r.below(n - a + 1)); uint32_t w[4]; for (auto& x : w) x = r.u32(); switch (r.below(13)) { case 0: return h.append_bit(r.chance(1, 2)); case 1: return h.append_word(w[0]); case 2: return n > 600 ? h.clear() : h.append_words(w, 4); case 3: return h.resize(uint32_t(r.below(300))); case 4: return a < n ? h.set_bit(a) : BL_SUCCESS; case 5: return a < n ? h.clear_bit(a) : BL_SUCCESS; case 6: return a < b ? h.fill_range(a, b) : BL_SUCCESS; case 7: return a < b ? h.clear_range(a, b) : BL_SUCCESS; case 8: return a < n ? h.replace_words(a, w, 4) : BL_SUCCESS; case 9: return a < n ? h.clear_word(a, w[0]) : BL_SUCCESS; case 10: return h.shrink(); case 11: return h.reserve(uint32_t(r.below(900))); default: return h.assign_words(w, 3); } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { BLBitArray t(a); return r.chance(1, 3) ? h.assign_words(t.data(), t.word_count()) : h.append_words(t.data(), t.word_count() > 30 ? 0 : t.word_count()); }
  static Str digest(const T& h) { Str s; putv(s, h.size()); put(s, h.data(), h.word_count() * 4); return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct APath { typedef BLPath T; static const char* name() { return "path"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    auto c = [&]() { return double(r.range(-50, 50)); }; double x = c(), y = c(), x1 = c(), y1 = c(), x2 = c(), y2 = c(); size_t n = h.size(), i = r.below(n + 1), j = i + r.below(n - i + 1); BLMatrix2D m = rnd_matrix(r);
    unsigned o = unsigned(r.below(26)); if (st().verbose) printf("path op %u size %zu\n", o, h.size()); switch (o) { case 0: case 1: return h.move_to(x, y); case 2: case 3: return h.line_to(x, y); case 4: return h.quad_to(x, y, x1, y1); case 5: return h.cubic_to(x, y, x1, y1, x2, y2); case 6: return h.conic_to(x, y, x1, y1, 0.7); case 7: return h.close(); case 8: return h.add_rect(BLRect(x, y, 10, 12)); case 9: return h.add_circle(BLCircle(x, y, 7)); case 10: return h.add_box(BLBoxI(1, 2, 3, int(y))); case 11: { BLPoint p[3] = {{x, y}, {x1, y1}, {x2, y2}}; return h.add_polygon(p, 3); } case 12: return h.smooth_cubic_to(x, y, x1, y1); case 13: return h.smooth_quad_to(x, y); case 14: return h.arc_to(x, y, 5, 6, 0.3, 2.0); case 15: return h.remove_range(RNG(i, j)); case 16: return h.translate(RNG(i, j), BLPoint(x, y)); case 17: return h.transform(m); case 18: return h.transform(RNG(i, j), m); case 19: return h.fit_to(BLRect(0, 0, 30, 20), 0); case 20: return i < n ? h.set_vertex_at(i, BL_PATH_CMD_PRESERVE, x, y) : BL_SUCCESS; case 21: return h.shrink(); case 22: return r.chance(1, 3) ? h.clear() : h.reserve(r.below(100)); case 23: return h.poly_to((const BLPoint*)&m, 3); case 24: return h.elliptic_arc_to(5, 6, 0.2, true, false, x, y);
      default: { uint8_t* cd; BLPoint* vd; BLResult q = h.modify_op(BL_MODIFY_OP_APPEND_GROW, 2, &cd, &vd); if (!q) { cd[0] = BL_PATH_CMD_MOVE; cd[1] = BL_PATH_CMD_ON; vd[0].reset(x, y); vd[1].reset(x1, y1); } return q; } } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { if (a.size() > 300 || h.size() > 300) return h.clear(); size_t n = a.size(), i = r.below(n + 1), j = i + r.below(n - i + 1); BLMatrix2D m = rnd_matrix(r); BLStrokeOptions so; so.width = 3;
    unsigned o = unsigned(r.below(8)); if (st().verbose) printf("path op2 %u\n", o); switch (o) { case 0: return h.add_path(a); case 1: return h.add_path(a, RNG(i, j)); case 2: return h.add_path(a, BLPoint(3, 4)); case 3: return h.add_path(a, RNG(i, j), m); case 4: return h.add_reversed_path(a, BL_PATH_REVERSE_MODE_COMPLETE); case 5: return h.add_reversed_path(a, BL_PATH_REVERSE_MODE_SEPARATE); case 6: return h.assign_deep(a); default: { if (n >= 40) return BL_SUCCESS; auto dump = [&](const char* w, const T& p) { if (!st().verbose) return; printf(" %s:", w); for (size_t q = 0; q < p.size(); q++) printf(" %u(%g,%g)", p.command_data()[q], p.vertex_data()[q].x, p.vertex_data()[q].y); printf("\n"); }; dump("in", a); dump("self", h); BLResult q = h.add_stroked_path(a, so, bl_default_approximation_options); dump("out", h); return q; } } }
  static Str digest(const T& h) { Str s; size_t n = h.size(); putv(s, n); put(s, h.command_data(), n); put(s, h.vertex_data(), n * 16); BLBox b; uint32_t fl = 0; memset(&b, 0, sizeof b); BLResult q = h.get_control_box(&b); putv(s, q); putv(s, b); q = h.get_bounding_box(&b); putv(s, q); putv(s, b); q = h.get_info_flags(&fl); putv(s, q); putv(s, fl); return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct AGradient { typedef BLGradient T; static const char* name() { return "gradient"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    BLGradientStop st[6]; size_t k = r.below(7); for (auto& x : st) x = rnd_stop(r); size_t n = h.size(), i = r.below(n + 1), j = i + r.below(n - i + 1); double v[6]; for (auto& x : v) x = double(r.range(-30, 30)); BLMatrix2D m = rnd_matrix(r);
    switch (r.below(20)) { case 0: case 1: case 2: return h.add_stop(st[0].offset, st[0].rgba); case 3: return i < n ? h.remove_stop(i) : BL_SUCCESS; case 4: return h.remove_stop_by_offset(st[0].offset, r.chance(1, 2)); case 5: return h.remove_stops(RNG(i, j)); case 6: return h.remove_stops_by_offset(st[0].offset, st[0].offset + 0.2); case 7: return i < n ? h.replace_stop(i, st[0].offset, st[0].rgba) : BL_SUCCESS; case 8: return h.assign_stops(st, k); case 9: return h.reset_stops(); case 10: return h.set_type(BLGradientType(r.below(3))); case 11: return h.set_extend_mode(BLExtendMode(r.below(3))); case 12: return h.set_value(r.below(6), v[0]); case 13: return h.set_values(r.below(3), v, 3); case 14: return h.set_transform(m); case 15: return h.rotate(0.3); case 16: return h.reset_transform(); case 17: return h.reserve(r.below(20)); case 18: return h.shrink(); default: return r.chance(1, 2) ? h.create(BLLinearGradientValues(v[0], v[1], v[2], v[3]), BL_EXTEND_MODE_REFLECT, st, k, m) : h.create(BLRadialGradientValues(v[0], v[1], v[2], v[3], 5, 6), BL_EXTEND_MODE_PAD, st, k); } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { std::vector<BLGradientStop> v(a.stops(), a.stops() + a.size()); switch (r.below(2)) { case 0: return h.assign_stops(v.data(), v.size()); default: { BLMatrix2D m = a.transform(); return h.create(a.linear(), a.extend_mode(), v.data(), v.size(), m); } } }
  static Str digest(const T& h) { Str s; putv(s, h.type()); putv(s, h.extend_mode()); for (size_t i = 0; i < 6; i++) putv(s, h.value(i)); putv(s, h.size()); put(s, h.stops(), h.size() * sizeof(BLGradientStop)); putv(s, h.transform()); putv(s, h.transform_type()); return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct APattern { typedef BLPattern T; static const char* name() { return "pattern"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    BLImage im = rnd_image(r); BLMatrix2D m = rnd_matrix(r); BLRectI a(0, 0, int(r.range(1, 12)), int(r.range(1, 12)));
    switch (r.below(11)) { case 0: case 1: return h.set_image(im); case 2: return h.set_image(im, a); case 3: return h.create(im, BLExtendMode(r.below(9)), m); case 4: return h.set_area(a); case 5: return h.reset_area(); case 6: return h.set_extend_mode(BLExtendMode(r.below(9))); case 7: return h.set_transform(m); case 8: return h.rotate(0.2); case 9: return h.reset_transform(); default: { if (r.chance(1, 4)) return h.reset_image(); BLImage x = h.get_image(); BLImageData d; BLResult q = x.is_empty() ? BLResult(BL_SUCCESS) : x.make_mutable(&d); if (!q && !x.is_empty()) *(uint8_t*)d.pixel_data ^= 0x55; return q; } } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { BLImage im = a.get_image(); switch (r.below(3)) { case 0: return h.set_image(im); case 1: return h.create(im, a.area(), a.extend_mode(), a.transform()); default: return bl_pattern_assign_deep(&h, &a); } }
  static Str digest(const T& h) { Str s; putv(s, h.extend_mode()); BLRectI a = h.area(); putv(s, a); BLMatrix2D m = h.transform(); putv(s, m); putv(s, h.transform_type()); s += image_digest(h.get_image()); return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct AImage { typedef BLImage T; static const char* name() { return "image"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    switch (r.below(9)) { case 0: h = rnd_image(r); return BL_SUCCESS; case 1: return h.create(int(r.range(0, 9)), int(r.range(1, 9)), BLFormat(r.range(1, 3))) == BL_SUCCESS ? (h.is_empty() ? BL_SUCCESS : [&]() { BLImageData d; h.make_mutable(&d); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; for (int y = 0; y < d.size.h; y++) memset((uint8_t*)d.pixel_data + y * d.stride, 7, d.size.w * bpp); return BLResult(BL_SUCCESS); }()) : BLResult(BL_SUCCESS);
      case 2: case 3: { if (h.is_empty()) return BL_SUCCESS; BLImageData d; BLResult q = h.make_mutable(&d); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; ((uint8_t*)d.pixel_data)[int(r.below(d.size.h)) * d.stride + r.below(d.size.w * bpp)] = uint8_t(r.below(256)); return q; }
      case 4: { if (h.is_empty()) return BL_SUCCESS; BLContext ctx; BLResult q = ctx.begin(h); if (q) return q; ctx.set_comp_op(BL_COMP_OP_SRC_COPY); ctx.fill_rect(BLRectI(int(r.below(4)), int(r.below(4)), 3, 3), BLRgba32(0xFF000000u | r.u32())); return ctx.end(); }
      case 5: if (h.is_empty()) return BL_SUCCESS; return h.convert(BLFormat(r.range(1, 3))); case 6: { if (h.is_empty()) return BL_SUCCESS; return BLImage::scale(h, h, BLSizeI(int(r.range(1, 10)), int(r.range(1, 10))), BLImageScaleFilter(1 + r.below(4))); } case 7: { if (h.is_empty()) return BL_SUCCESS; BLImageData d; BLResult q = h.make_mutable(&d); if (!q) memset(d.pixel_data, 9, d.size.w); return q; }
      default: return h.create_from_data(8, 8, BL_FORMAT_PRGB32, g_ro_pixels, 32, BL_DATA_ACCESS_READ); } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { switch (r.below(3)) { case 0: return h.assign_deep(a); case 1: return a.is_empty() ? BL_SUCCESS : BLImage::scale(h, a, BLSizeI(int(r.range(1, 10)), int(r.range(1, 10))), BL_IMAGE_SCALE_FILTER_BILINEAR); default: { if (h.is_empty() || a.is_empty()) return BL_SUCCESS; BLImage t; t.assign_deep(a); BLImage u(a); if (&a == &h) u = t; BLContext ctx; BLResult q = ctx.begin(h); if (q) return q; ctx.blit_image(BLPointI(1, 1), u); return ctx.end(); } } }
  static Str digest(const T& h) { return image_digest(h); }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct AStroke { typedef BLStrokeOptions T; static const char* name() { return "stroke options"; }
  static BLResult mutate(T& h, const T*, Rng& r) { double d[5]; for (auto& x : d) x = double(r.below(9)); switch (r.below(8)) { case 0: h.width = d[0]; break; case 1: h.miter_limit = d[1]; break; case 2: h.dash_offset = d[2]; break; case 3: h.set_caps(BLStrokeCap(r.below(6))); break; case 4: h.join = uint8_t(r.below(5)); break; case 5: return h.dash_array.assign_data(d, r.below(6)); case 6: return h.dash_array.append(d[3]); default: h.end_cap = uint8_t(r.below(6)); h.transform_order = uint8_t(r.below(2)); } return BL_SUCCESS; }
  static BLResult mutate2(T& h, const T& a, Rng& r) { return r.chance(1, 2) ? h.dash_array.assign(a.dash_array) : h.dash_array.size() > 200 ? h.dash_array.clear() : h.dash_array.append_data(a.dash_array.view()); }
  static Str digest(const T& h) { Str s; putv(s, h.hints); putv(s, h.width); putv(s, h.miter_limit); putv(s, h.dash_offset); putv(s, h.dash_array.size()); put(s, h.dash_array.data(), h.dash_array.size() * 8); return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct AFeatures { typedef BLFontFeatureSettings T; static const char* name() { return "feature settings"; }
  static BLResult mutate(T& h, const T*, Rng& r) { BLTag t = rnd_tag(r, false); switch (r.below(8)) { case 0: case 1: case 2: case 3: return h.set_value(t, r.chance(3, 4) ? uint32_t(r.below(2)) : uint32_t(r.below(70))); case 4: case 5: return h.remove_value(t); case 6: return bl_font_feature_settings_shrink(&h); default: return r.chance(1, 4) ? h.clear() : BL_SUCCESS; } }
  static BLResult mutate2(T& h, const T& a, Rng&) { BLFontFeatureSettingsView v; a.get_view(&v); for (size_t i = 0; i < v.size; i++) { BLResult q = h.set_value(v.data[i].tag, v.data[i].value); if (q) return BL_SUCCESS; } return BL_SUCCESS; }
  static Str digest(const T& h) { Str s; BLFontFeatureSettingsView v; h.get_view(&v); putv(s, v.size); for (size_t i = 0; i < v.size; i++) { putv(s, v.data[i].tag); putv(s, v.data[i].value); } return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct AVariations { typedef BLFontVariationSettings T; static const char* name() { return "variation settings"; }
  static BLResult mutate(T& h, const T*, Rng& r) { BLTag t = rnd_tag(r, true); switch (r.below(8)) { case 0: case 1: case 2: case 3: return h.set_value(t, r.chance(3, 4) ? float(r.below(5)) / 4 : float(r.below(900))); case 4: case 5: return h.remove_value(t); case 6: return bl_font_variation_settings_shrink(&h); default: return r.chance(1, 4) ? h.clear() : BL_SUCCESS; } }
  static BLResult mutate2(T& h, const T& a, Rng&) { BLFontVariationSettingsView v; a.get_view(&v); for (size_t i = 0; i < v.size; i++) { BLResult q = h.set_value(v.data[i].tag, v.data[i].value); if (q) return q; } return BL_SUCCESS; }
  static Str digest(const T& h) { Str s; BLFontVariationSettingsView v; h.get_view(&v); putv(s, v.size); for (size_t i = 0; i < v.size; i++) { putv(s, v.data[i].tag); putv(s, v.data[i].value); } return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 1 }; };
struct AFont { typedef BLFont T; static const char* name() { return "font"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    BLFontFeatureSettings f; BLFontVariationSettings v; f.set_value(rnd_tag(r, false), 1); v.set_value(rnd_tag(r, true), 0.5f); float z = float(r.range(5, 40)); BLFontFace fc = g_faces[r.below(2)];
    // What the operation leaves is what a new font of the same face, size and settings has.
    BLFontFace ef = h.face(); float es = h.size(); BLFontFeatureSettings xf(h.feature_settings()); BLFontVariationSettings xv(h.variation_settings()); BLResult e = BL_SUCCESS; const char* op = "";
    switch (r.below(8)) {
      case 0: op = "create_from_face"; e = h.create_from_face(fc, z); ef = fc; es = z; xf.reset(); xv.reset(); break;
      case 1: op = "create_from_face with features"; e = h.create_from_face(fc, z, f); ef = fc; es = z; xf = f; xv.reset(); break;
      case 2: op = "create_from_face with settings"; e = h.create_from_face(fc, z, f, v); ef = fc; es = z; xf = f; xv = v; break;
      case 3: op = "set_size"; e = h.set_size(z); es = z; break;
      case 4: op = "set_feature_settings"; e = h.set_feature_settings(f); xf = f; break;
      case 5: op = "reset_feature_settings"; e = h.reset_feature_settings(); xf.reset(); break;
      case 6: op = "set_variation_settings"; e = h.set_variation_settings(v); xv = v; break;
      default: op = "reset_variation_settings"; e = h.reset_variation_settings(); xv.reset(); break;
    }
    if (e == BL_SUCCESS && ef.is_valid()) { T w; if (w.create_from_face(ef, es, xf, xv) == BL_SUCCESS) { count("fonts compared with a new one", 1); VH_CHECK(digest(w) == digest(h), "font:state", "after %s of a font: size %g, %zu features, %zu variations; a new font of the same face, size and settings has size %g, %zu features, %zu variations (or their values or metrics differ)", op, double(h.size()), h.feature_settings().size(), h.variation_settings().size(), double(w.size()), w.feature_settings().size(), w.variation_settings().size()); } }
    return e;
  }
  static BLResult mutate2(T& h, const T& a, Rng& r) { switch (r.below(3)) { case 0: return a.is_valid() ? h.create_from_face(a.face(), 13.0f) : BL_SUCCESS; case 1: { BLFontFeatureSettings f(a.feature_settings()); return h.set_feature_settings(f); } default: return h.set_feature_settings(a.feature_settings()); } }
  static Str digest(const T& h) { Str s; float z = h.size(); putv(s, z); s += AFeatures::digest(h.feature_settings()); s += AVariations::digest(h.variation_settings()); putv(s, h.matrix()); BLFontMetrics m = h.metrics(); putv(s, m); putv(s, h.face().unique_id()); return s; }
  static bool eq(const T& a, const T& b) { return a.equals(b); } enum { kEq = 0 }; };
struct AVar { typedef BLVar T; static const char* name() { return "var"; }
  static BLResult mutate(T& h, const T*, Rng& r) {
    switch (r.below(14)) { case 0: return h.assign(r.chance(1, 2)); case 1: return h.assign(int32_t(r.range(-9, 9))); case 2: return h.assign(uint64_t(r.u64())); case 3: return h.assign(r.dbl(-3, 3)); case 4: { Str t = rnd_str(r); BLString s; s.assign(t.data(), t.size()); return h.assign(s); } case 5: { BLArray<int> a; for (int i = 0; i < int(r.below(20)); i++) a.append(int(r.below(100))); return h.assign(a); } case 6: { BLGradient g; g.add_stop(0.5, BLRgba32(r.u32())); return h.assign(g); } case 7: { BLPath p; p.move_to(1, double(r.below(5))); return h.assign(std::move(p)); } case 8: return h.assign(BLRgba32(r.u32())); case 9: return h.assign(BLRgba(0.5f, 0.25f, float(r.unit()), 1.0f)); case 10: return h.assign(rnd_image(r)); case 11: { BLBitSet b; b.add_range(5, uint32_t(10 + r.below(1000))); b.add_bit(5000); return h.assign(b); }
      case 12: { // mutate the held object in place
        if (h.is_string()) return h.as<BLString>().append('q'); if (h.type() == BL_OBJECT_TYPE_PATH) return h.as<BLPath>().move_to(2, 3); if (h.type() == BL_OBJECT_TYPE_ARRAY_INT32) return h.as<BLArray<int>>().append(3); if (h.type() == BL_OBJECT_TYPE_GRADIENT) return h.as<BLGradient>().add_stop(1.0, BLRgba32(1)); if (h.type() == BL_OBJECT_TYPE_BIT_SET) return h.as<BLBitSet>().add_bit(7); return BL_SUCCESS; }
      default: return h.reset(); } }
  static BLResult mutate2(T& h, const T& a, Rng& r) { if (a.is_string() && r.chance(1, 2)) { if (h.is_string()) return h.as<BLString>().append(a.as<BLString>()); } return h.assign(a); }
  static Str digest(const T& h) { Str s; BLObjectType t = h.type(); putv(s, t); switch (t) { case BL_OBJECT_TYPE_STRING: s += AString::digest(h.as<BLString>()); break; case BL_OBJECT_TYPE_ARRAY_INT32: put(s, h.as<BLArray<int>>().data(), h.as<BLArray<int>>().size() * 4); break; case BL_OBJECT_TYPE_PATH: s += APath::digest(h.as<BLPath>()); break; case BL_OBJECT_TYPE_GRADIENT: s += AGradient::digest(h.as<BLGradient>()); break; case BL_OBJECT_TYPE_IMAGE: s += image_digest(h.as<BLImage>()); break; case BL_OBJECT_TYPE_BIT_SET: s += ABitSet::digest(h.as<BLBitSet>()); break; case BL_OBJECT_TYPE_RGBA: case BL_OBJECT_TYPE_RGBA32: { BLRgba c; h.to_rgba(&c); putv(s, c); break; } case BL_OBJECT_TYPE_NULL: break; default: { double d = 0; uint64_t u = 0; bool b = false; int64_t i = 0; BLResult q = h.to_double(&d); putv(s, q); putv(s, d); q = bl_var_to_uint64(&h, &u); putv(s, q); putv(s, u); q = bl_var_to_int64(&h, &i); putv(s, i); h.to_bool(&b); putv(s, b); } } return s; }
  static bool eq(const T& a, const T& b) { return a.type() == b.type() && a.equals(b); } enum { kEq = 0 }; };

struct Node { std::shared_ptr<Node> parent, arg; uint64_t seed; uint8_t kind; uint32_t weight; }; // kind 0: mutate, 1: mutate2(arg)
typedef std::shared_ptr<Node> NodeP;
template<class A> static void rebuild(typename A::T& h, const NodeP& n, BLResult* last) {
  std::vector<Node*> chain; for (Node* p = n.get(); p; p = p->parent.get()) chain.push_back(p);
  for (size_t i = chain.size(); i--;) { Rng r(chain[i]->seed); BLResult q; if (chain[i]->kind == 0) q = A::mutate(h, nullptr, r); else { typename A::T a; rebuild<A>(a, chain[i]->arg, nullptr); q = A::mutate2(h, a, r); } if (last) *last = q; }
}
template<typename T> static BLObjectType type_of() { return BL_OBJECT_TYPE_NULL; }
template<typename T> struct Pass { static bool via_var(T& d, const T& s) { BLVar v(s); BLVar w(v); d = w.template as<T>(); return true; } static bool via_array(T& d, const T& s) { BLArray<BLVar> a; a.append(BLVar(s)); a.append(BLVar(s)); BLArray<BLVar> b(a); b.remove(0); d = b[0].template as<T>(); return true; } };
template<> struct Pass<BLVar> { static bool via_var(BLVar&, const BLVar&) { return false; } static bool via_array(BLVar& d, const BLVar& s) { BLArray<BLVar> a; a.append(s); BLArray<BLVar> b(a); d.assign(b[0]); return true; } };
template<> struct Pass<BLStrokeOptions> { static bool via_var(BLStrokeOptions&, const BLStrokeOptions&) { return false; } static bool via_array(BLStrokeOptions&, const BLStrokeOptions&) { return false; } };
template<> struct Pass<BLFont> { static bool via_var(BLFont& d, const BLFont& s) { BLVar v(s); d = v.as<BLFont>(); return true; } static bool via_array(BLFont& d, const BLFont& s) { BLArray<BLFont> a; a.append(s); BLArray<BLFont> b(a); b.append(s); d = b[1]; return true; } };

template<class A> static void cow_case(Rng& r) {
  typedef typename A::T T; const unsigned N = 4; std::unique_ptr<T> hp[N]; NodeP nd[N]; Str dg[N]; Hash hs; hs.add(A::name(), strlen(A::name()));
  for (auto& p : hp) p.reset(new T()); Str d0 = A::digest(*hp[0]); for (auto& d : dg) d = d0; unsigned nops = unsigned(r.range(6, 36)); char key[80]; snprintf(key, sizeof key, "cow:%s", A::name());
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(N)), j = unsigned(r.below(N)); T& h = *hp[i]; const char* op = "?"; unsigned o = unsigned(r.below(20)); hs.add(o).add(i).add(j); bool rebuilt = false;
    if (st().verbose) printf("step %u: op %u i %u j %u\n", k, o, i, j), fflush(stdout);
    switch (o) {
      case 0: case 1: op = "copy assign"; h = *hp[j]; nd[i] = nd[j]; dg[i] = dg[j]; break;
      case 2: op = "move assign"; if (i == j) break; h = std::move(*hp[j]); if (!strcmp(A::name(), "var") || !strcmp(A::name(), "stroke options")) { (void)A::digest(*hp[j]); hp[j]->reset(); } nd[i] = nd[j]; dg[i] = dg[j]; nd[j] = nullptr; dg[j] = d0; break;
      case 3: op = "swap"; if (i == j) break; { T t(std::move(h)); h = std::move(*hp[j]); *hp[j] = std::move(t); std::swap(nd[i], nd[j]); std::swap(dg[i], dg[j]); } break;
      case 4: op = "copy construct"; hp[i].reset(new T(*hp[j])); if (i != j) { nd[i] = nd[j]; dg[i] = dg[j]; } break;
      case 5: op = "reset"; if (r.chance(1, 3)) { h.reset(); nd[i] = nullptr; dg[i] = d0; } break;
      case 6: op = "through var"; if (Pass<T>::via_var(h, *hp[j])) { nd[i] = nd[j]; dg[i] = dg[j]; } break;
      case 7: op = "through array"; if (Pass<T>::via_array(h, *hp[j])) { nd[i] = nd[j]; dg[i] = dg[j]; } break;
      case 8: op = "destroy and recreate"; hp[i].reset(); hp[i].reset(new T()); nd[i] = nullptr; dg[i] = d0; break;
      case 9: { op = "mutate a temporary copy"; T t(h); Rng q(r.u64()); A::mutate(t, nullptr, q); T u(t); Rng q2(r.u64()); A::mutate(u, nullptr, q2); break; }
      default: { bool two = r.chance(1, 3); if (two && (nd[j] ? nd[j]->weight : 0) + (nd[i] ? nd[i]->weight : 0) > 150) two = false; uint64_t seed = r.u64(); op = two ? (i == j ? "mutate with itself" : "mutate with another") : "mutate";
        NodeP n = std::make_shared<Node>(Node{nd[i], two ? nd[j] : nullptr, seed, uint8_t(two), 1 + (nd[i] ? nd[i]->weight : 0) + (two && nd[j] ? nd[j]->weight : 0)});
        Rng q(seed); BLResult res = two ? A::mutate2(h, *hp[j], q) : A::mutate(h, nullptr, q); T f; BLResult fres = BL_SUCCESS; rebuild<A>(f, n, &fres); rebuilt = true;
        Str nw = A::digest(h), want = A::digest(f);
        VH_CHECK(res == fres, key, "%s (seed %llx): result %u, on an unshared object %u", op, (unsigned long long)seed, unsigned(res), unsigned(fres));
        if (nw != want) fail(key, "%s (seed %llx): value differs from the one the same history produces on unshared objects (lengths %zu %zu) %s / %s", op, (unsigned long long)seed, nw.size(), want.size(), hexs(nw).c_str(), hexs(want).c_str());
        if (res) VH_CHECK(nw == dg[i], key, "%s: failed with %u but changed the value", op, unsigned(res));
        nd[i] = n; dg[i] = nw; count("mutations"); if (two && i == j) count("self-aliased mutations"); if (res) count("rejected mutations"); } }
    for (unsigned q = 0; q < N; q++) { Str d = A::digest(*hp[q]); if (d != dg[q]) fail(key, "%s on handle %u changed handle %u (%u other)%s", op, i, q, j, rebuilt ? "" : " [not a mutation]"); }
    unsigned x = unsigned(r.below(N)), y = unsigned(r.below(N)); bool e = A::eq(*hp[x], *hp[y]); if (A::kEq) VH_CHECK(e == (dg[x] == dg[y]), key, "after %s: equals gave %d for values that are %s", op, e, dg[x] == dg[y] ? "equal" : "different"); else if (dg[x] != dg[y]) VH_CHECK(!e, key, "after %s: equals of different values", op);
    for (auto p : g_ro_pixels) VH_CHECK(p == 0x80402010u, key, "%s wrote read-only external pixels", op);
    count("steps");
  }
  distinct(hs.h); sample("%s: %u steps over 4 handles", A::name(), nops); count(A::name());
}

// ---------------------------------------------------------------- P07
struct GModel { uint32_t type = 0, extend = 0; double v[6] = {0}; std::vector<BLGradientStop> s; BLMatrix2D m = BLMatrix2D::make_identity();
  static void norm(std::vector<BLGradientStop>& s) { std::stable_sort(s.begin(), s.end(), [](const BLGradientStop& a, const BLGradientStop& b) { return a.offset < b.offset; }); std::vector<BLGradientStop> o; for (size_t i = 0; i < s.size();) { size_t j = i; while (j < s.size() && s[j].offset == s[i].offset) j++; o.push_back(s[i]); if (j - i > 1) o.push_back(s[j - 1]); i = j; } s = o; }
  void add(double off, uint64_t c) { size_t i = 0; while (i < s.size() && s[i].offset <= off) i++; size_t n = 0; for (auto& x : s) n += x.offset == off; if (n >= 2) { s[i - 1].rgba.value = c; return; } s.insert(s.begin() + i, BLGradientStop(off, BLRgba64(c))); } };
static void check_gradient(const BLGradient& g, const GModel& m, const char* op) {
  VH_CHECK(uint32_t(g.type()) == m.type && uint32_t(g.extend_mode()) == m.extend, "gradient:props", "after %s: type %u/%u extend %u/%u", op, g.type(), m.type, g.extend_mode(), m.extend);
  for (size_t i = 0; i < 6; i++) VH_CHECK(g.value(i) == m.v[i], "gradient:values", "after %s: value %zu is %g expected %g", op, i, g.value(i), m.v[i]); 
  VH_CHECK(g.size() == m.s.size() && g.is_empty() == m.s.empty() && g.capacity() >= g.size(), "gradient:stops", "after %s: %zu stops expected %zu", op, g.size(), m.s.size());
  for (size_t i = 0; i < m.s.size(); i++) VH_CHECK(g.stop_at(i).offset == m.s[i].offset && g.stop_at(i).rgba == m.s[i].rgba, "gradient:stops", "after %s: stop %zu of %zu is (%g %llx) expected (%g %llx)", op, i, m.s.size(), g.stop_at(i).offset, (unsigned long long)g.stop_at(i).rgba.value, m.s[i].offset, (unsigned long long)m.s[i].rgba.value);
  VH_CHECK(g.transform() == m.m && g.transform_type() == m.m.type() && g.has_transform() == (m.m.type() != BL_TRANSFORM_TYPE_IDENTITY), "gradient:transform", "after %s: transform differs", op);
  for (int k = 0; k <= 8; k++) { double o = k / 8.0; size_t e = SIZE_MAX; for (size_t i = 0; i < m.s.size(); i++) if (m.s[i].offset == o) { e = i; break; } VH_CHECK(g.index_of_stop(o) == e, "gradient:index_of", "after %s: index_of_stop(%g) = %zu expected %zu", op, o, g.index_of_stop(o), e); }
}
static bool xform_op(Rng& r, BLMatrix2D& m, std::function<BLResult(BLTransformOp, const void*)> f, BLResult* res, bool* inval) {
  double d[6]; for (auto& x : d) x = double(r.range(-8, 8)) / 2; unsigned o = unsigned(r.below(14)); *inval = false; BLMatrix2D t = rnd_matrix(r);
  switch (o) { case 0: *res = f(BL_TRANSFORM_OP_RESET, nullptr); if (m.type() != BL_TRANSFORM_TYPE_IDENTITY) m.reset(); break; case 1: *res = f(BL_TRANSFORM_OP_ASSIGN, &t); m = t; break; case 2: *res = f(BL_TRANSFORM_OP_TRANSLATE, d); m.translate(d[0], d[1]); break; case 3: *res = f(BL_TRANSFORM_OP_SCALE, d); m.scale(d[0], d[1]); break; case 4: *res = f(BL_TRANSFORM_OP_SKEW, d); m.skew(d[0], d[1]); break; case 5: *res = f(BL_TRANSFORM_OP_ROTATE, d); m.rotate(d[0]); break; case 6: *res = f(BL_TRANSFORM_OP_ROTATE_PT, d); m.rotate(d[0], d[1], d[2]); break; case 7: *res = f(BL_TRANSFORM_OP_TRANSFORM, &t); m.transform(t); break; case 8: *res = f(BL_TRANSFORM_OP_POST_TRANSLATE, d); m.post_translate(d[0], d[1]); break; case 9: *res = f(BL_TRANSFORM_OP_POST_SCALE, d); m.post_scale(d[0], d[1]); break; case 10: *res = f(BL_TRANSFORM_OP_POST_ROTATE, d); m.post_rotate(d[0]); break; case 11: *res = f(BL_TRANSFORM_OP_POST_TRANSFORM, &t); m.post_transform(t); break; case 12: *res = f(BL_TRANSFORM_OP_POST_SKEW, d); m.post_skew(d[0], d[1]); break; default: *res = f(BLTransformOp(BL_TRANSFORM_OP_MAX_VALUE + 1 + r.below(9)), d); *inval = true; } return true;
}
static void gradient_case(Rng& r) {
  BLGradient g[3]; GModel m[3]; Hash hs; unsigned nops = unsigned(r.range(5, 60)); bool fine = r.chance(1, 3);
  auto off = [&]() { return r.chance(1, 20) ? (r.chance(1, 2) ? -0.1 : r.chance(1, 2) ? 1.5 : NAN) : fine ? r.unit() : double(r.below(9)) / 8; };
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(3)), j = unsigned(r.below(3)); BLGradient& h = g[i]; GModel& v = m[i]; const char* op = "?"; BLResult res = 0; bool inval = false; double o = off(), o2 = off(); uint64_t c = r.u64(); size_t n = v.s.size(), a = r.below(n + 2), b = r.below(n + 3); bool bad = !(o >= 0 && o <= 1); unsigned w = unsigned(r.below(23)); hs.add(w).add(n).add(a);
    if (r.chance(1, 3) && n) { o = v.s[r.below(n)].offset; bad = false; }
    auto stops = [&](std::vector<BLGradientStop>& s, bool& bd) { size_t q = r.skew(14); bd = false; for (size_t z = 0; z < q; z++) { double x = off(); if (!(x >= 0 && x <= 1)) { if (r.chance(1, 2)) x = 0.5; else bd = true; } s.push_back(BLGradientStop(x, BLRgba64(r.u64()))); } if (r.chance(1, 3)) std::stable_sort(s.begin(), s.end(), [](const BLGradientStop& p, const BLGradientStop& q) { return p.offset < q.offset; }); };
    switch (w) {
      case 0: case 1: case 2: op = "add_stop64"; res = h.add_stop(o, BLRgba64(c)); inval = bad; if (!bad) v.add(o, c); break;
      case 3: { op = "add_stop32"; uint32_t c32 = uint32_t(c); res = h.add_stop(o, BLRgba32(c32)); inval = bad; uint64_t e = 0; for (int q = 0; q < 4; q++) e |= uint64_t(((c32 >> (8 * q)) & 255) * 0x101) << (16 * q); if (!bad) v.add(o, e); } break;
      case 4: op = "remove_stop"; res = h.remove_stop(a); inval = a > n; if (a < n) v.s.erase(v.s.begin() + a); if (a == n) res = 0; break;
      case 5: { op = "remove_stop_by_offset"; bool all = r.chance(1, 2); res = h.remove_stop_by_offset(o, all); inval = bad; if (!bad) for (size_t q = 0; q < v.s.size();) { if (v.s[q].offset == o) { v.s.erase(v.s.begin() + q); if (!all) break; } else q++; } } break;
      case 6: { op = "remove_stops"; if (r.chance(1, 4)) b = SIZE_MAX; res = h.remove_stops(RNG(a, b)); inval = a > n || std::min(b, n) < a; if (!inval) v.s.erase(v.s.begin() + a, v.s.begin() + std::min(b, n)); } break;
      case 7: { op = "remove_stops_by_offset"; if (std::isnan(o) || std::isnan(o2)) break; res = h.remove_stops_by_offset(o, o2); inval = o2 < o; if (!inval) v.s.erase(std::remove_if(v.s.begin(), v.s.end(), [&](const BLGradientStop& x) { return x.offset >= o && x.offset <= o2; }), v.s.end()); } break;
      case 8: case 9: { op = "replace_stop"; res = h.replace_stop(a, o, BLRgba64(c)); inval = a >= n || bad; if (!inval) { if (v.s[a].offset == o) v.s[a].rgba.value = c; else { v.s.erase(v.s.begin() + a); v.add(o, c); } } } break;
      case 10: case 11: { op = "assign_stops"; std::vector<BLGradientStop> s; bool bd; stops(s, bd); res = h.assign_stops(s.data(), s.size()); inval = bd; if (!bd) { GModel::norm(s); v.s = s; } } break;
      case 12: op = "reset_stops"; res = h.reset_stops(); v.s.clear(); break;
      case 13: { op = "set_type"; uint32_t t = uint32_t(r.below(4)); res = h.set_type(BLGradientType(t)); inval = t > 2; if (!inval) v.type = t; } break;
      case 14: { op = "set_extend_mode"; uint32_t t = uint32_t(r.below(5)); res = h.set_extend_mode(BLExtendMode(t)); inval = t > 2; if (!inval) v.extend = t; } break;
      case 15: { op = "set_value"; size_t q = r.below(8); double x = double(r.range(-9, 9)); res = h.set_value(q, x); inval = q > 5; if (!inval) v.v[q] = x; } break;
      case 16: { op = "set_values"; size_t q = r.below(7), z = r.below(8); double x[8]; for (auto& t : x) t = double(r.range(-9, 9)); res = h.set_values(q, x, z); inval = q > 5 || z > 6 - q; if (!inval) for (size_t t = 0; t < z; t++) v.v[q + t] = x[t]; } break;
      case 17: case 18: { op = "transform op"; BLMatrix2D x = v.m; xform_op(r, x, [&](BLTransformOp t, const void* d) { return h._apply_transform_op(t, d); }, &res, &inval); if (!inval) v.m = x; } break;
      case 19: op = "reserve/shrink"; res = r.chance(1, 2) ? h.reserve(r.below(40)) : h.shrink(); break;
      case 20: op = "copy"; h = g[j]; { GModel t = m[j]; v = t; } break;
      case 21: { op = "create"; std::vector<BLGradientStop> s; bool bd; stops(s, bd); uint32_t t = uint32_t(r.below(4)), e = uint32_t(r.below(4)); double x[6]; for (auto& z : x) z = double(r.range(-9, 9)); BLMatrix2D tm = rnd_matrix(r); bool hasm = r.chance(1, 2), hasv = r.chance(7, 8); res = bl_gradient_create(&h, BLGradientType(t), hasv ? x : nullptr, BLExtendMode(e), s.empty() ? nullptr : s.data(), s.size(), hasm ? &tm : nullptr); inval = bd || t > 2 || e > 2;
        if (!inval) { static const int nv[3] = {4, 6, 4}; v.type = t; v.extend = e; GModel::norm(s); v.s = s; for (int z = 0; z < 6; z++) v.v[z] = hasv && z < nv[t] ? x[z] : 0; v.m = hasm ? tm : BLMatrix2D::make_identity(); } } break;
      case 22: { op = "render"; // builds the color table, which must follow later changes
        if (v.s.empty()) break; BLImage im(4, 1, BL_FORMAT_PRGB32), im2(4, 1, BL_FORMAT_PRGB32); BLGradient f; f.create(BLLinearGradientValues(0, 0, 4, 0), BL_EXTEND_MODE_PAD, v.s.data(), v.s.size()); BLGradient t(h); t.set_type(BL_GRADIENT_TYPE_LINEAR); t.set_extend_mode(BL_EXTEND_MODE_PAD); t.set_values(BLLinearGradientValues(0, 0, 4, 0)); t.reset_transform();
        for (int z = 0; z < 2; z++) { BLContext ctx(z ? im2 : im); ctx.set_comp_op(BL_COMP_OP_SRC_COPY); ctx.fill_all(z ? f : t); ctx.end(); } if (!h.equals(t)) { BLContext ctx(im); ctx.set_comp_op(BL_COMP_OP_SRC_COPY); ctx.fill_all(h); ctx.end(); ctx.begin(im); ctx.set_comp_op(BL_COMP_OP_SRC_COPY); ctx.fill_all(t); ctx.end(); }
        VH_CHECK(image_digest(im) == image_digest(im2), "gradient:stale_colors", "rendering uses other colors than the gradient has"); count("gradients rendered"); } break;
    }
    if (st().verbose) printf("%u: %s -> %u (inval %d) stops %zu\n", i, op, unsigned(res), inval, v.s.size()), fflush(stdout);
    VH_CHECK((res != BL_SUCCESS) == inval, "gradient:result", "%s returned %u, expected %s", op, unsigned(res), inval ? "an error" : "success");
    for (int q = 0; q < 3; q++) check_gradient(g[q], m[q], op);
    bool e = m[i].type == m[j].type && m[i].extend == m[j].extend && !memcmp(m[i].v, m[j].v, sizeof v.v) && m[i].m == m[j].m && m[i].s.size() == m[j].s.size(); if (e) for (size_t q = 0; q < m[i].s.size(); q++) e = e && m[i].s[q] == m[j].s[q];
    VH_CHECK(g[i].equals(g[j]) == e, "gradient:equals", "after %s: equals gave %d", op, g[i].equals(g[j])); count("gradient ops");
  }
  distinct(hs.h); sample("gradient: %u ops, %zu stops", nops, m[0].s.size());
}
static void pattern_case(Rng& r) {
  struct PM { Str img; int w = 0, h = 0; BLRectI a{0, 0, 0, 0}; uint32_t e = BL_EXTEND_MODE_REPEAT; BLMatrix2D m = BLMatrix2D::make_identity(); }; BLPattern p[3]; PM m[3]; PM def; def.img = image_digest(BLImage()); for (auto& x : m) x = def; Hash hs; unsigned nops = unsigned(r.range(5, 50));
  BLImage imgs[3]; for (auto& x : imgs) x = rnd_image(r);
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(3)), j = unsigned(r.below(3)); BLPattern& h = p[i]; PM& v = m[i]; const char* op = "?"; BLResult res = 0; bool inval = false; unsigned w = unsigned(r.below(14)); hs.add(w).add(i).add(j);
    BLImage im = r.chance(1, 8) ? BLImage() : imgs[r.below(3)]; BLRectI a(int(r.range(-2, 5)), int(r.range(-2, 5)), int(r.range(-1, 12)), int(r.range(-1, 12))); if (r.chance(1, 2)) a = BLRectI(int(r.below(3)), int(r.below(3)), int(r.range(1, 6)), int(r.range(1, 6))); if (r.chance(1, 10)) a.w = INT_MAX;
    auto valid = [&](const BLRectI& q, int iw, int ih) { return q.x >= 0 && q.y >= 0 && q.x < iw && q.y < ih && q.w >= 0 && q.h >= 0 && int64_t(q.x) + q.w <= iw && int64_t(q.y) + q.h <= ih; }; int iw = im.width(), ih = im.height(); BLRectI full(0, 0, iw, ih); uint32_t e = uint32_t(r.below(11)); BLMatrix2D tm = rnd_matrix(r);
    switch (w) {
      case 0: op = "set_image"; res = h.set_image(im); v.img = image_digest(im); v.w = iw; v.h = ih; v.a = full; break;
      case 1: op = "set_image(area)"; res = h.set_image(im, a); inval = !(a == full) && !valid(a, iw, ih); if (!inval) { v.img = image_digest(im); v.w = iw; v.h = ih; v.a = a; } break;
      case 2: case 3: { op = "create"; bool ha = r.chance(1, 2), hm = r.chance(1, 2); res = bl_pattern_create(&h, &im, ha ? &a : nullptr, BLExtendMode(e), hm ? &tm : nullptr); inval = e > 8 || (ha && !(a == full) && !valid(a, iw, ih)); if (!inval) { v.img = image_digest(im); v.w = iw; v.h = ih; v.a = ha ? a : full; v.e = e; v.m = hm ? tm : BLMatrix2D::make_identity(); } } break;
      case 4: op = "set_area"; res = h.set_area(a); inval = !valid(a, v.w, v.h); if (!inval) v.a = a; break;
      case 5: op = "reset_area"; res = h.reset_area(); v.a = BLRectI(0, 0, v.w, v.h); break;
      case 6: op = "set_extend_mode"; res = h.set_extend_mode(BLExtendMode(e)); inval = e > 8; if (!inval) v.e = e; break;
      case 7: case 8: { op = "transform op"; BLMatrix2D x = v.m; xform_op(r, x, [&](BLTransformOp t, const void* d) { return h._apply_transform_op(t, d); }, &res, &inval); if (!inval) v.m = x; } break;
      case 9: op = "reset_image"; res = h.reset_image(); v.img = def.img; v.w = v.h = 0; v.a = BLRectI(0, 0, 0, 0); break;
      case 10: op = "copy"; h = p[j]; { PM t = m[j]; v = t; } break;
      case 11: op = "assign_deep"; res = bl_pattern_assign_deep(&h, &p[j]); { PM t = m[j]; v = t; } break;
      case 12: { op = "mutate source image"; BLImage& q = imgs[r.below(3)]; BLImageData d; q.make_mutable(&d); ((uint8_t*)d.pixel_data)[0] ^= 0x11; } break;
      case 13: op = "reset"; res = h.reset(); v = def; break;
    }
    if (st().verbose) printf("%u: %s -> %u (inval %d)\n", i, op, unsigned(res), inval), fflush(stdout);
    VH_CHECK((res != BL_SUCCESS) == inval, "pattern:result", "%s returned %u, expected %s", op, unsigned(res), inval ? "an error" : "success");
    if (res == BL_SUCCESS && h.transform().equals(v.m) == false) { BLMatrix2D t = h.transform(); bool same = true; for (int q = 0; q < 6; q++) same = same && t.m[q] == v.m.m[q]; if (same) v.m = t; } // only the sign of zeros differs
    for (int q = 0; q < 3; q++) { VH_CHECK(p[q].area() == m[q].a, "pattern:area", "after %s: area %d %d %d %d expected %d %d %d %d", op, p[q].area().x, p[q].area().y, p[q].area().w, p[q].area().h, m[q].a.x, m[q].a.y, m[q].a.w, m[q].a.h); VH_CHECK(uint32_t(p[q].extend_mode()) == m[q].e, "pattern:extend", "after %s: extend %u expected %u", op, p[q].extend_mode(), m[q].e); VH_CHECK(p[q].transform() == m[q].m && p[q].transform_type() == m[q].m.type(), "pattern:transform", "after %s: transform %g %g %g %g %g %g type %d expected %g %g %g %g %g %g type %d", op, p[q].transform().m00, p[q].transform().m01, p[q].transform().m10, p[q].transform().m11, p[q].transform().m20, p[q].transform().m21, int(p[q].transform_type()), m[q].m.m00, m[q].m.m01, m[q].m.m10, m[q].m.m11, m[q].m.m20, m[q].m.m21, int(m[q].m.type())); VH_CHECK(image_digest(p[q].get_image()) == m[q].img, "pattern:image", "after %s: image", op); }
    bool zs = false; if (!(p[i].transform() == p[j].transform())) { zs = true; BLMatrix2D t = p[i].transform(), u = p[j].transform(); for (int q = 0; q < 6; q++) zs = zs && t.m[q] == u.m[q]; } else if (p[i].transform_type() == BL_TRANSFORM_TYPE_IDENTITY && !p[i].equals(p[j]) && m[i].e == m[j].e) zs = m[i].a == m[j].a && p[i].get_image() == p[j].get_image(); // the sign of zeros is not specified
    if (!zs) VH_CHECK(p[i].equals(p[j]) == (m[i].img == m[j].img && m[i].a == m[j].a && m[i].e == m[j].e && p[i].transform() == p[j].transform()), "pattern:equals", "after %s: equals %d (types %d %d, images %d), images %d area %d extend %d transform %d", op, int(p[i].transform_type()), int(p[j].transform_type()), p[i].get_image().equals(p[j].get_image()), p[i].equals(p[j]), m[i].img == m[j].img, m[i].a == m[j].a, m[i].e == m[j].e, p[i].transform() == p[j].transform()); count("pattern ops");
  }
  distinct(hs.h); sample("pattern: %u ops", nops);
}

// ---------------------------------------------------------------- P08
static std::vector<BLTag> g_tags; static std::set<BLTag> g_bool;
template<typename S, typename V, typename View, bool VAR> static void settings_case(Rng& r) {
  S s[3]; std::map<BLTag, V> m[3]; Hash hs; unsigned nops = unsigned(r.range(5, 80)); unsigned pool = unsigned(r.chance(1, 2) ? 8 : r.chance(1, 2) ? 40 : g_tags.size()); unsigned base = unsigned(r.below(g_tags.size()));
  auto tag = [&]() -> BLTag { if (r.chance(1, 12)) { char t[4]; for (auto& c : t) c = char(r.chance(1, 9) ? r.below(256) : 32 + r.below(95)); return BL_MAKE_TAG(uint8_t(t[0]), uint8_t(t[1]), uint8_t(t[2]), uint8_t(t[3])); } return r.chance(1, 3) ? rnd_tag(r, VAR) : g_tags[(base + r.below(pool)) % g_tags.size()]; };
  auto valid = [](BLTag t) { for (int q = 0; q < 4; q++) { uint8_t c = uint8_t(t >> (8 * q)); if (c < 32 || c > 126) return false; } return true; };
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(3)), j = unsigned(r.below(3)); S& h = s[i]; auto& v = m[i]; const char* op = "?"; BLResult res = 0; bool inval = false; BLTag t = tag(); if (r.chance(1, 4) && !v.empty()) { auto it = v.begin(); std::advance(it, r.below(v.size())); t = it->first; } unsigned w = unsigned(r.below(16)); hs.add(w).add(t);
    switch (w) {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: { op = "set_value"; V x; if (VAR) { x = V(r.chance(1, 2) ? double(r.below(5)) / 4 : r.chance(1, 2) ? double(r.below(2000)) : r.dbl(-2, 2)); if (r.chance(1, 20)) x = V(70000); } else x = V(r.chance(1, 2) ? r.below(2) : r.chance(1, 2) ? r.below(20) : r.chance(1, 2) ? r.below(300) : r.below(66000)); res = h.set_value(t, x); inval = !valid(t) || x > V(65535) || (!VAR && g_bool.count(t) && x > V(1)); if (!inval) v[t] = x; break; }
      case 7: case 8: case 9: op = "remove_value"; res = h.remove_value(t); v.erase(t); if (!valid(t)) res = 0; break;
      case 10: op = "clear"; if (r.chance(1, 2)) break; res = h.clear(); v.clear(); break;
      case 11: op = "shrink"; res = settings_shrink(h); break;
      case 12: op = "copy"; h = s[j]; { auto q = m[j]; v = q; } break;
      case 13: op = "move"; if (i != j) { h = std::move(s[j]); v = m[j]; m[j].clear(); } break;
      case 14: op = "swap"; std::swap(h._d, s[j]._d); std::swap(v, m[j]); break;
      case 15: op = "reset"; if (r.chance(1, 3)) { res = h.reset(); v.clear(); } break;
    }
    if (st().verbose) printf("%u(%u): %s(%08x) -> %u inval %d size %zu\n", i, j, op, t, unsigned(res), inval, v.size()), fflush(stdout);
    VH_CHECK((res != BL_SUCCESS) == inval, "settings:result", "%s(%08x) returned %u, expected %s (size %zu)", op, t, unsigned(res), inval ? "an error" : "success", v.size());
    for (int q = 0; q < 3; q++) {
      View view; s[q].get_view(&view); VH_CHECK(view.size == m[q].size() && s[q].size() == m[q].size() && s[q].is_empty() == m[q].empty() && s[q].capacity() >= s[q].size(), "settings:size", "after %s: size %zu view %zu expected %zu", op, s[q].size(), view.size, m[q].size());
      size_t z = 0; for (auto& kv : m[q]) { VH_CHECK(view.data[z].tag == kv.first && view.data[z].value == kv.second, "settings:view", "after %s: item %zu is %08x=%g expected %08x=%g", op, z, view.data[z].tag, double(view.data[z].value), kv.first, double(kv.second)); VH_CHECK(s[q].get_value(kv.first) == kv.second && s[q].has_value(kv.first), "settings:get", "after %s: get_value(%08x) gave %g expected %g", op, kv.first, double(s[q].get_value(kv.first)), double(kv.second)); z++; }
      BLTag x = tag(); if (!m[q].count(x)) { V g = s[q].get_value(x); VH_CHECK(!s[q].has_value(x) && (VAR ? g != g : g == V(BL_FONT_FEATURE_INVALID_VALUE)), "settings:get", "after %s: value of the absent tag %08x is %g", op, x, double(g)); }
    }
    VH_CHECK(s[i].equals(s[j]) == (m[i] == m[j]), "settings:equals", "after %s: equals gave %d (sizes %zu %zu)", op, s[i].equals(s[j]), m[i].size(), m[j].size());
    count(VAR ? "variation ops" : "feature ops");
  }
  distinct(hs.h); sample("%s settings: %u ops, sizes %zu %zu %zu", VAR ? "variation" : "feature", nops, m[0].size(), m[1].size(), m[2].size());
}
#include "values_var.inc"

void vh_init() {
  for (auto& p : g_ro_pixels) p = 0x80402010u;
  Str f = st().corpus + "/CFFTest.otf"; const char* files[2] = {"/repo/blend2d-testing/resources/ABeeZee-Regular.ttf", f.c_str()}; for (int i = 0; i < 2; i++) VH_ASSUME(g_faces[i].create_from_file(files[i]) == BL_SUCCESS);
  for (uint32_t a = 'a'; a <= 'z'; a++) for (uint32_t b = 0; b < 6; b++) g_tags.push_back(BL_MAKE_TAG(a, 'a' + b * 4, 'l', 't'));
  const char* F = "aaltabvfabvmabvsafrcakhnblwfblwmblwsc2pcc2sccaltcaseccmpcfarchwscjctcligcpctcpspcswhcurscv01cv02cv03cv10cv50cv99dligdnomdtlsexptfaltfin2fin3finaflacfracfwidhalfhalnhaltheavhistHISThkrnhligHLIGhlighojohwidinitisolitaljajpjaltjp78jp83jp90jp04kernlfbdligaljmolnumloclltralrtmmarkmedimed2mgrkmkmkmsetnaltnlcknuktnumronumopbdordnornmpaltpcapphwdpknapnumprefpresprespstspsspwidqwidrandrcltrkrfrligrphfrtbdrtlarubyrvrnsaltsinfsizesmcpsmplss01ss02ss03ss19ss20sstsstchsubssupsswshtitltjmotnamtnumtradtwidunicvalvatuvchwvertvhalvjmovkrnvpalvrt2vrtrzerowghtwdthslntitalopszgrad";
  for (const char* p = F; p[0] && p[1] && p[2] && p[3]; p += 4) g_tags.push_back(BL_MAKE_TAG(uint8_t(p[0]), uint8_t(p[1]), uint8_t(p[2]), uint8_t(p[3])));
  // Features that only allow 0 and 1 are those that a fresh object refuses to set to 2.
  std::vector<BLTag> all = g_tags; for (uint32_t z = 0; z < 400; z++) { Rng r(z); all.push_back(rnd_tag(r, false)); } for (BLTag t : all) { BLFontFeatureSettings s; if (s.set_value(t, 2) != BL_SUCCESS) g_bool.insert(t); }
}
void vh_case(uint64_t id, Rng& r) {
  const std::string& m = st().mode; uint64_t v = id / 8;
  if (m == "P01") switch (v % 16) { case 0: cow_case<AString>(r); break; case 1: cow_case<AArr<double>>(r); break; case 2: cow_case<AArr<uint8_t>>(r); break; case 3: cow_case<AArrObj>(r); break; case 4: cow_case<ABitSet>(r); break; case 5: cow_case<ABitArray>(r); break; case 6: case 7: cow_case<APath>(r); break; case 8: cow_case<AGradient>(r); break; case 9: cow_case<APattern>(r); break; case 10: cow_case<AImage>(r); break; case 11: cow_case<AStroke>(r); break; case 12: cow_case<AFeatures>(r); break; case 13: cow_case<AVariations>(r); break; case 14: cow_case<AFont>(r); break; default: cow_case<AVar>(r); }
  else if (m == "P07") { if (v % 3) gradient_case(r); else pattern_case(r); }
  else if (m == "P08") { if (v % 2) settings_case<BLFontFeatureSettings, uint32_t, BLFontFeatureSettingsView, false>(r); else settings_case<BLFontVariationSettings, float, BLFontVariationSettingsView, true>(r); }
  else if (m == "P09") var_case(r);
  else VH_ASSUME(!"mode");
}
void vh_finish() {}
