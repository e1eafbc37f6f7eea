// P09: variants and colors. The numeric model is exact 128-bit integers / doubles.
#include <blend2d/pixelops/scalar_p.h>
#include <blend2d/core/rgba_p.h>
typedef __int128 i128;
struct VNum { int kind; /*0 null 1 bool 2 i64 3 u64 4 double 5 rgba 6 rgba32 7 rgba64 8 string 9 path 10 array*/ i128 i = 0; double d = 0; BLRgba c{}; uint64_t u = 0; Str s; };
static bool d_is_int(double d, i128* out) { if (!(d >= -1e37 && d <= 1e37) || d != trunc(d)) return false; *out = (i128)d; return true; }
static double rnd_dbl(Rng& r) {
  switch (r.below(10)) { case 0: return double(r.range(-5, 5)); case 1: return double(r.range(-300, 300)) / 4; case 2: { static const double E[] = {2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., 9223372036854775807., -9223372036854775808., 18446744073709551615., 9007199254740992., 9007199254740993., 2147483647.5, -2147483648.5, 4294967295.5, 9223372036854774784., 18446744073709549568., -9223372036854777856., 1e300, -1e300, 0.5, -0.5, -0.0, 1e-320}; return r.pick(E); }
    case 3: return NAN; case 4: return r.chance(1, 2) ? INFINITY : -INFINITY; case 5: return double(int64_t(r.u64() >> r.below(64))); case 6: return double(r.u64() >> r.below(64)); case 7: { uint64_t b = r.u64(); double d; memcpy(&d, &b, 8); return d; } default: return r.dbl(-1e6, 1e6); }
}
static int64_t rnd_i64(Rng& r) { switch (r.below(5)) { case 0: return r.range(-3, 3); case 1: { static const int64_t E[] = {INT64_MIN, INT64_MAX, INT32_MIN, INT32_MAX, int64_t(INT32_MIN) - 1, int64_t(INT32_MAX) + 1, int64_t(UINT32_MAX), int64_t(UINT32_MAX) + 1, INT64_MAX - 1, (1ll << 53), (1ll << 53) + 1, -(1ll << 53) - 1, INT64_MIN + 1, INT64_MAX - 511, INT64_MAX - 1023}; return r.pick(E); } case 2: return int64_t(r.u64()); case 3: return int64_t(r.u64() >> r.below(64)); default: return -int64_t(r.u64() >> (1 + r.below(63))); } }
static float rnd_chan(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return float(r.below(256)) / 255.0f; case 3: return float(r.dbl(-2, 3)); case 4: return float(r.unit()); default: { static const float E[] = {-1e-30f, 1.0000001f, 0.5f, INFINITY, 0.0019607843f, 3.4e38f}; return r.pick(E); } } }
static void make_num(Rng& r, VNum& n, BLVar& v) {
  n = VNum(); n.kind = int(r.below(11)); if (r.chance(1, 3)) n.kind = int(r.below(5));
  switch (n.kind) {
    case 0: v.reset(); break;
    case 1: { bool b = r.chance(1, 2); n.i = b; if (r.chance(1, 2)) v.assign(b); else v.assign(BLVar(b)); break; }
    case 2: if (r.chance(1, 3)) { int32_t x = int32_t(rnd_i64(r)); n.i = x; v.assign(x); } else { int64_t x = rnd_i64(r); n.i = x; if (r.chance(1, 2)) v.assign(x); else v.assign(BLVar(x)); } break;
    case 3: if (r.chance(1, 3)) { uint32_t x = uint32_t(rnd_i64(r)); n.i = x; v.assign(x); } else { uint64_t x = uint64_t(rnd_i64(r)); n.i = x; if (r.chance(1, 2)) v.assign(x); else v.assign(BLVar(x)); } break;
    case 4: n.d = rnd_dbl(r); if (r.chance(1, 2)) v.assign(n.d); else v.assign(BLVar(n.d)); break;
    case 5: n.c = BLRgba(rnd_chan(r), rnd_chan(r), rnd_chan(r), rnd_chan(r)); if (r.chance(1, 10)) n.c.a = r.chance(1, 2) ? -INFINITY : -3.3e38f; if (r.chance(1, 2)) v.assign(n.c); else v.assign(BLVar(n.c)); if (!(n.c.a > 0)) n.c.a = 0; break;
    case 6: n.u = r.u32(); if (r.chance(1, 2)) v.assign(BLRgba32(uint32_t(n.u))); else v.assign(BLVar(BLRgba32(uint32_t(n.u)))); break;
    case 7: n.u = r.u64(); if (r.chance(1, 3)) n.u = BLRgba64(BLRgba32(r.u32())).value; if (r.chance(1, 2)) v.assign(BLRgba64(n.u)); else v.assign(BLVar(BLRgba64(n.u))); break;
    case 8: { n.s = rnd_str(r, 30); BLString s; s.assign(n.s.data(), n.s.size()); v.assign(s); break; }
    case 9: { BLPath p; int k = int(r.below(3)); for (int i = 0; i < k; i++) { p.move_to(i, i); n.s += char(i); } v.assign(p); break; }
    default: { BLArray<int> a; int k = int(r.below(3)); for (int i = 0; i < k; i++) { a.append(i); n.s += char(i); } v.assign(a); }
  }
}
template<typename I> static void chk_int(const VNum& n, const BLVar& v, BLResult (BLVar::*)(I*) const, BLResult res, I got, const char* nm) {
  const i128 lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max(); I e = 0; BLResult er = BL_SUCCESS;
  if (n.kind == 0) e = 0; else if (n.kind <= 3) { if (n.i < lo) e = I(lo), er = BL_ERROR_OVERFLOW; else if (n.i > hi) e = I(hi), er = BL_ERROR_OVERFLOW; else e = I(n.i); }
  else if (n.kind == 4) {
    if (n.d != n.d) er = BL_ERROR_INVALID_CONVERSION; else { double t = trunc(n.d); bool sat = false; i128 q; if (t >= 1.8446744073709552e19) q = hi, sat = true; else if (t < -9.3e18) q = lo, sat = true; else q = (i128)t; if (q > hi) q = hi, sat = true; if (q < lo) q = lo, sat = true; if (lo == 0 && n.d < 0) sat = true; e = I(q); er = (sat || t != n.d) ? BL_ERROR_OVERFLOW : BL_SUCCESS; }
  } else er = BL_ERROR_INVALID_CONVERSION;
  VH_CHECK(res == er && got == e, "var:to_int", "to_%s of kind %d (i=%lld d=%.17g) gave %lld result %u, expected %lld result %u", nm, n.kind, (long long)n.i, n.d, (long long)got, unsigned(res), (long long)e, unsigned(er));
}
static bool num_eq(const VNum& a, const VNum& b) { // numeric kinds 1..4
  if (a.kind == 4 && b.kind == 4) return a.d == b.d || (a.d != a.d && b.d != b.d);
  if (a.kind == 4) { i128 x; return d_is_int(a.d, &x) && x == b.i; } if (b.kind == 4) { i128 x; return d_is_int(b.d, &x) && x == a.i; } return a.i == b.i;
}
static BLRgba col(const VNum& n) { if (n.kind == 5) return n.c; if (n.kind == 6) { uint32_t u = uint32_t(n.u); return BLRgba(float(u >> 16 & 255) / 255, float(u >> 8 & 255) / 255, float(u & 255) / 255, float(u >> 24) / 255); } return BLRgba(float(n.u >> 32 & 0xffff) / 65535, float(n.u >> 16 & 0xffff) / 65535, float(n.u & 0xffff) / 65535, float(n.u >> 48) / 65535); }
static bool near(float a, float b) { return a == b || fabsf(a - b) < 2e-7f; }
static void var_num(Rng& r) {
  BLVar v, w; VNum a, b; make_num(r, a, v); make_num(r, b, w); if (r.chance(1, 4)) { w.assign(v); b = a; }
  static const BLObjectType T[] = {BL_OBJECT_TYPE_NULL, BL_OBJECT_TYPE_BOOL, BL_OBJECT_TYPE_INT64, BL_OBJECT_TYPE_UINT64, BL_OBJECT_TYPE_DOUBLE, BL_OBJECT_TYPE_RGBA, BL_OBJECT_TYPE_RGBA32, BL_OBJECT_TYPE_RGBA64, BL_OBJECT_TYPE_STRING, BL_OBJECT_TYPE_PATH, BL_OBJECT_TYPE_ARRAY_INT32};
  VH_CHECK(v.type() == T[a.kind], "var:type", "type %u for kind %d", unsigned(v.type()), a.kind);
  VH_CHECK(v.is_null() == (a.kind == 0) && v.is_bool() == (a.kind == 1) && v.is_int64() == (a.kind == 2) && v.is_uint64() == (a.kind == 3) && v.is_double() == (a.kind == 4) && v.is_rgba() == (a.kind == 5) && v.is_rgba32() == (a.kind == 6) && v.is_rgba64() == (a.kind == 7) && v.is_string() == (a.kind == 8) && v.is_path() == (a.kind == 9), "var:is", "is_*() of kind %d", a.kind);
  int32_t i32 = 77; BLResult q = v.to_int32(&i32); chk_int<int32_t>(a, v, nullptr, q, i32, "int32"); int64_t i64 = 77; q = v.to_int64(&i64); chk_int<int64_t>(a, v, nullptr, q, i64, "int64");
  uint32_t u32 = 77; q = v.to_uint32(&u32); chk_int<uint32_t>(a, v, nullptr, q, u32, "uint32"); uint64_t u64 = 77; q = v.to_uint64(&u64); chk_int<uint64_t>(a, v, nullptr, q, u64, "uint64");
  { double d = 77; q = v.to_double(&d); double e = 0; bool ok = true; if (a.kind == 0) e = 0; else if (a.kind <= 3) { e = a.kind == 3 ? double(uint64_t(a.i)) : double(int64_t(a.i)); i128 x; ok = d_is_int(e, &x) && x == a.i; } else if (a.kind == 4) e = a.d; else ok = false;
    VH_CHECK((q == BL_SUCCESS) == ok && (d == e || (d != d && e != e)), "var:to_double", "to_double of kind %d (i=%lld d=%g) gave %.17g result %u", a.kind, (long long)a.i, a.d, d, unsigned(q)); }
  { uint8_t raw = 0xcc; bool* bp = (bool*)&raw; q = v.to_bool(bp); bool e = false, ok = a.kind <= 4 || a.kind == 8; if (a.kind <= 3) e = a.i != 0; else if (a.kind == 4) e = a.d != 0 && a.d == a.d; else if (a.kind == 8) e = !a.s.empty();
    VH_CHECK((q == BL_SUCCESS) == ok && (raw == uint8_t(e)), "var:to_bool", "to_bool of kind %d (i=%lld d=%g size %zu) gave byte %u result %u", a.kind, (long long)a.i, a.d, a.s.size(), raw, unsigned(q)); }
  if (a.kind >= 5 && a.kind <= 7) {
    BLRgba c; BLRgba32 c32; BLRgba64 c64; VH_OK(v.to_rgba(&c), "var:rgba"); VH_OK(v.to_rgba32(&c32), "var:rgba"); VH_OK(v.to_rgba64(&c64), "var:rgba"); BLRgba e = col(a);
    VH_CHECK(near(c.r, e.r) && near(c.g, e.g) && near(c.b, e.b) && near(c.a, e.a), "var:rgba", "to_rgba of kind %d %llx gave %g %g %g %g expected %g %g %g %g", a.kind, (unsigned long long)a.u, c.r, c.g, c.b, c.a, e.r, e.g, e.b, e.a);
    auto q8 = [](float x) { double y = x < 0 ? 0 : x > 1 ? 1 : x; return y * 255; }; auto q16 = [](float x) { double y = x < 0 ? 0 : x > 1 ? 1 : x; return y * 65535; };
    if (a.kind == 5) { VH_CHECK(fabs(q8(e.r) - c32.r()) <= 0.5001 && fabs(q8(e.g) - c32.g()) <= 0.5001 && fabs(q8(e.b) - c32.b()) <= 0.5001 && fabs(q8(e.a) - c32.a()) <= 0.5001, "var:rgba32", "%g %g %g %g gave %08x", e.r, e.g, e.b, e.a, c32.value); VH_CHECK(fabs(q16(e.r) - c64.r()) <= 0.51 && fabs(q16(e.g) - c64.g()) <= 0.51 && fabs(q16(e.b) - c64.b()) <= 0.51 && fabs(q16(e.a) - c64.a()) <= 0.51, "var:rgba64", "%g %g %g %g gave %llx", e.r, e.g, e.b, e.a, (unsigned long long)c64.value); }
    if (a.kind == 6) { VH_CHECK(c32.value == uint32_t(a.u) && c64.r() == c32.r() * 257 && c64.g() == c32.g() * 257 && c64.b() == c32.b() * 257 && c64.a() == c32.a() * 257 && c.to_rgba32().value == uint32_t(a.u), "var:rgba32", "%08x gave %08x %llx", uint32_t(a.u), c32.value, (unsigned long long)c64.value); }
    if (a.kind == 7) { VH_CHECK(c64.value == a.u && c32.r() == c64.r() >> 8 && c32.g() == c64.g() >> 8 && c32.b() == c64.b() >> 8 && c32.a() == c64.a() >> 8, "var:rgba64", "%llx gave %08x %llx", (unsigned long long)a.u, c32.value, (unsigned long long)c64.value); }
    if (a.kind >= 6) { bool ex32 = a.kind == 6 || BLRgba64(BLRgba32(c32)).value == a.u; VH_CHECK(v.equals(c64) && v.equals(c32) == ex32, "var:rgba_eq", "equality with its own conversion: %d %d expected %d", v.equals(c64), v.equals(c32), ex32); uint32_t o = c32.value ^ (1u << r.below(32)); VH_CHECK(!v.equals(BLRgba32(o)) && !v.equals(BLRgba64(c64.value ^ (1ull << r.below(64)))), "var:rgba_eq", "equal to a different color"); }
    else VH_CHECK(v.equals(a.c), "var:rgba_eq", "not equal to the assigned color");
  } else { BLRgba c; BLRgba32 c32; BLRgba64 c64; VH_CHECK(v.to_rgba(&c) && v.to_rgba32(&c32) && v.to_rgba64(&c64), "var:rgba", "kind %d converts to a color", a.kind); }
  bool e; if (a.kind == 0 || b.kind == 0) e = a.kind == b.kind; else if (a.kind <= 4 && b.kind <= 4) e = num_eq(a, b); else if (a.kind == b.kind) { e = a.kind >= 8 ? a.s == b.s : a.kind == 5 ? !memcmp(&a.c, &b.c, 16) : a.u == b.u; } else e = false;
  bool mixed_color = a.kind != b.kind && a.kind >= 5 && a.kind <= 7 && b.kind >= 5 && b.kind <= 7; // equality of different color types through equals(var) is not defined
  if (!mixed_color) { VH_CHECK(v.equals(w) == e && w.equals(v) == e, "var:equals", "kinds %d %d (i=%lld %lld d=%.17g %.17g): equals gave %d/%d expected %d", a.kind, b.kind, (long long)a.i, (long long)b.i, a.d, b.d, v.equals(w), w.equals(v), e); }
  if (b.kind >= 1 && b.kind <= 4) { bool f = b.kind == 1 ? v.equals(bool(b.i)) : b.kind == 2 ? v.equals(int64_t(b.i)) : b.kind == 3 ? v.equals(uint64_t(b.i)) : v.equals(b.d); VH_CHECK(f == e, "var:equals_num", "kinds %d %d (i=%lld %lld d=%.17g %.17g): equals gave %d expected %d", a.kind, b.kind, (long long)a.i, (long long)b.i, a.d, b.d, f, e); }
  if (v.strict_equals(w)) VH_CHECK(a.kind == b.kind && (a.kind == 4 ? !memcmp(&a.d, &b.d, 8) : a.kind <= 3 ? a.i == b.i : a.kind == 5 ? !memcmp(&a.c, &b.c, 16) : a.kind <= 7 ? a.u == b.u : a.s == b.s), "var:strict", "strictly equal but kinds %d %d", a.kind, b.kind);
  if (a.kind <= 7 && a.kind == b.kind) { BLVar c(v); VH_CHECK(c.strict_equals(v), "var:strict", "a copy is not strictly equal"); }
  count("variants"); distinct(Hash().add(a.kind).add(b.kind).add(a.i).add(a.d).add(a.u).h); if (st().cur % 50000 == 8) sample("variant kinds %d,%d i=%lld d=%g", a.kind, b.kind, (long long)a.i, a.d);
}
static void color_block(uint64_t id, Rng& r) {
  using namespace bl::PixelOps::Scalar; uint32_t a = uint32_t(id & 255); uint32_t other = r.u32();
  for (uint32_t c = 0; c < 256; c++) {
    uint32_t rgba = a << 24 | c << 16 | ((c * 7 + other) & 255) << 8 | ((other >> 8) & 255), p = cvt_prgb32_8888_from_argb32_8888(rgba), pa = p; auto ch = [](uint32_t v, int s) { return v >> s & 255; };
    for (int s = 0; s <= 16; s += 8) { uint32_t e = (ch(rgba, s) * a * 2 + 255) / 510; VH_CHECK(ch(p, s) == e && ch(pa, s) == e, "rgba:premul", "premultiply %08x gave %08x/%08x, expected %u at %d", rgba, p, pa, e, s); } VH_CHECK(p >> 24 == a && pa >> 24 == a, "rgba:premul", "alpha of %08x gave %08x", rgba, p);
    uint32_t u = cvt_argb32_8888_from_prgb32_8888(p), ub = cvt_abgr32_8888_from_prgb32_8888(p); VH_CHECK(u >> 24 == a && ub == ((u & 0xff00ff00u) | (u >> 16 & 255) | (u & 255) << 16), "rgba:unpremul", "%08x -> %08x %08x", p, u, ub);
    for (int s = 0; s <= 16; s += 8) { uint32_t x = ch(p, s); uint32_t e = a ? std::min<uint32_t>(255, uint32_t((x * 510 + a) / (2 * a))) : 0; VH_CHECK(ch(u, s) == e, "rgba:unpremul", "unpremultiply %08x gave %08x, expected %u at %d", p, u, e, s); }
    BLRgba f{BLRgba32(rgba)}; VH_CHECK(f.to_rgba32().value == rgba, "rgba:float", "%08x does not survive the float form", rgba); VH_CHECK(bl::RgbaInternal::rgba64FromRgba32(rgba) == BLRgba64(BLRgba32(rgba)).value, "rgba:64", "rgba64FromRgba32(%08x)", rgba);
    uint64_t w = r.u64(); BLRgba g{BLRgba64(w)}; VH_CHECK(g.to_rgba64().value == w, "rgba:float64", "%llx does not survive the float form", (unsigned long long)w); VH_CHECK(bl::RgbaInternal::rgba32FromRgba64(w) == BLRgba32(BLRgba64(w)).value, "rgba:32", "rgba32FromRgba64(%llx)", (unsigned long long)w);
    uint64_t w4 = w; uint32_t wa = uint32_t(w4 >> 48); if (c & 1) { wa = (c & 2) ? 65535 : a * 257; w4 = (w4 << 16 >> 16) | uint64_t(wa) << 48; } uint64_t pw = cvt_prgb64_8888_from_argb64_8888(w4); for (int s = 0; s <= 32; s += 16) { uint64_t e = ((w4 >> s & 0xffff) * wa * 2 + 65535) / 131070; VH_CHECK((pw >> s & 0xffff) == e, "rgba:premul64", "premultiply %llx by %u gave %llx", (unsigned long long)w4, wa, (unsigned long long)pw); } VH_CHECK(pw >> 48 == wa, "rgba:premul64", "alpha");
    uint32_t w16 = uint32_t(w & 0xffff); { uint32_t R = w16 >> 11, G = w16 >> 5 & 63, B = w16 & 31, e = 0xff000000u | (R << 3 | R >> 2) << 16 | (G << 2 | G >> 4) << 8 | (B << 3 | B >> 2); VH_CHECK(cvt_xrgb32_0888_from_xrgb16_0565(w16) == e, "rgba:565", "%04x", w16); } { uint32_t R = w16 >> 10 & 31, G = w16 >> 5 & 31, B = w16 & 31, e = 0xff000000u | (R << 3 | R >> 2) << 16 | (G << 3 | G >> 2) << 8 | (B << 3 | B >> 2); VH_CHECK(cvt_xrgb32_0888_from_xrgb16_0555(w16) == e, "rgba:555", "%04x", w16); } { uint32_t e = (w16 >> 12) * 0x11u << 24 | (w16 >> 8 & 15) * 0x11u << 16 | (w16 >> 4 & 15) * 0x11u << 8 | (w16 & 15) * 0x11u; VH_CHECK(cvt_argb32_8888_from_argb16_4444(w16) == e, "rgba:4444", "%04x", w16); }
  }
  count("color conversions", 256); distinct(Hash().add(a).add(other).h);
}
static void var_case(Rng& r) { if ((st().cur / 8) % 16 == 0) color_block(st().cur / 128, r); else for (int i = 0; i < 4; i++) var_num(r); }
