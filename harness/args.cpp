// P37: any argument a C caller can pass is rejected or harmless. Random calls over the public entry points with hostile
// values; AddressSanitizer, UndefinedBehaviourSanitizer, the library's own assertions and the runner's watchdog judge the
// calls, and probes of known outcome afterwards check that every object is still usable.
#include "vh.h"
#include <limits.h>
using namespace vh;
static BLFont g_font; static BLFontFace g_face;

struct Gen {
  Rng& r; int lvl; // lvl 0: mostly sane with rare hostile values, 1: half, 2: mostly hostile.
  bool evil() { return r.chance(lvl == 0 ? 1 : lvl == 1 ? 4 : 9, 12); }
  double d() {
    if (!evil()) return r.chance(1, 2) ? double(r.range(-40, 90)) : r.dbl(-50, 100);
    static const double w[] = {NAN, -NAN, INFINITY, -INFINITY, 1.7976931348623157e308, -1.7976931348623157e308, 1e300, -1e300, 1e154, 1e38, -3.5e38, 1e20, 9223372036854775808.0, -9223372036854775809.0, 4294967296.0, 4294967295.5, 2147483648.0, 2147483647.0, 2147483647.5, -2147483648.0, -2147483649.0, 8388608.0, 8388607.99, 16777216.0, -8388609.0, 65536.0, 32768.5, -32769.0, 1e-300, 4.9e-324, -4.9e-324, 2.2250738585072014e-308, 1e-12, -1e-12, 0.0, -0.0, 1.0, 0.5, 255.99999, 256.0};
    switch (r.below(5)) { case 0: case 1: return r.pick(w); case 2: return r.dbl(-1, 1) * pow(10, r.dbl(-20, 20)); case 3: return r.dbl(-1, 1) * pow(10, r.dbl(2, 12)); default: { uint64_t u = r.u64(); double v; memcpy(&v, &u, 8); return v; } }
  }
  double finite() { double v = d(); return v - v == 0 ? v : 7.25; }
  int i() {
    if (!evil()) return int(r.range(-20, 90));
    static const int w[] = {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, -1, 0, 1, 65535, 65536, 65537, -65536, 8388607, 8388608, 8388609, -8388608, 1 << 30, -(1 << 30), 16777216, 255, 256, 32767, 32768};
    return r.chance(3, 4) ? r.pick(w) : int(r.u32());
  }
  uint32_t e(uint32_t maxv) { if (!r.chance(1, 8)) return uint32_t(r.below(uint64_t(maxv) + 1)); static const uint32_t w[] = {0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 255, 256, 0x100, 0xFFFF}; return r.chance(1, 2) ? maxv + 1 + uint32_t(r.below(3)) : r.pick(w); }
  size_t idx(size_t n) { if (!evil()) return size_t(r.below(n + 2)); static const size_t w[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, size_t(1) << 32, (size_t(1) << 32) - 1, SIZE_MAX / 16, SIZE_MAX / 17, SIZE_MAX / 24, SIZE_MAX / 32}; return r.chance(1, 2) ? r.pick(w) : n + size_t(r.below(3)); }
  size_t big() { if (r.chance(1, 2)) return size_t(r.below(300)); static const size_t w[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 8, SIZE_MAX / 16, SIZE_MAX / 16 + 1, SIZE_MAX / 17, SIZE_MAX / 17 + 1, SIZE_MAX / 24, SIZE_MAX / 24 + 1, SIZE_MAX - 15, SIZE_MAX - 31, SIZE_MAX - 63, SIZE_MAX / 32, size_t(1) << 62, size_t(1) << 61, size_t(1) << 60, size_t(1) << 59, size_t(1) << 48}; return r.pick(w) - size_t(r.chance(1, 2) ? r.below(40) : 0); }
  uint32_t bit() { if (!evil()) return uint32_t(r.below(500)); static const uint32_t w[] = {0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFFFE0u, 0xFFFFFFDFu, 0x80000000u, 0x7FFFFFFFu, 0, 1, 31, 32, 33}; return r.chance(3, 4) ? r.pick(w) : r.u32(); }
  BLPoint pt() { double a = d(); return BLPoint(a, d()); }
  BLPointI pti() { int a = i(); return BLPointI(a, i()); }
  BLRect rc() { double a = d(), b = d(), c = d(); return BLRect(a, b, c, d()); }
  BLRectI rci() { int a = i(), b = i(), c = i(); return BLRectI(a, b, c, i()); }
  BLMatrix2D mat() { BLMatrix2D m; double v[6]; for (int k = 0; k < 6; k++) v[k] = (k < 4 && !r.chance(1, 3)) ? (k == 0 || k == 3 ? 1.0 : 0.0) : d(); m.reset(v[0], v[1], v[2], v[3], v[4], v[5]); return m; }
  BLRange range(size_t n) { BLRange q; q.start = r.chance(1, 3) ? 0 : idx(n); q.end = r.chance(1, 3) ? SIZE_MAX : idx(n); return q; }
  uint32_t flags() { return r.chance(1, 2) ? uint32_t(r.below(64)) : r.u32(); }
};

// A buffer large enough to be the data of any geometry type (by value types), with hostile contents.
struct Geom {
  double mem[32]; std::vector<BLPoint> pd; std::vector<BLPointI> pi; std::vector<BLRect> rd; std::vector<BLRectI> ri; BLArrayView<BLPoint> vpd; BLArrayView<BLPointI> vpi; BLArrayView<BLRect> vrd; BLArrayView<BLRectI> vri; uint32_t type; const void* data;
  Geom(Gen& g, BLPathCore* path) {
    type = g.e(BL_GEOMETRY_TYPE_MAX_VALUE); for (double& x : mem) x = g.d(); data = mem;
    if (type == BL_GEOMETRY_TYPE_BOXI || type == BL_GEOMETRY_TYPE_RECTI) { BLRectI q = g.rci(); memcpy(mem, &q, sizeof q); }
    size_t n = g.r.below(12); for (size_t k = 0; k < n; k++) { pd.push_back(g.pt()); pi.push_back(g.pti()); rd.push_back(g.rc()); ri.push_back(g.rci()); }
    vpd.reset(pd.data(), n); vpi.reset(pi.data(), n); vrd.reset(rd.data(), n); vri.reset(ri.data(), n);
    switch (type) { case BL_GEOMETRY_TYPE_POLYLINED: case BL_GEOMETRY_TYPE_POLYGOND: data = &vpd; break; case BL_GEOMETRY_TYPE_POLYLINEI: case BL_GEOMETRY_TYPE_POLYGONI: data = &vpi; break; case BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXD: case BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD: data = &vrd; break; case BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI: case BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTI: data = &vri; break; case BL_GEOMETRY_TYPE_PATH: data = path; break; default: break; }
  }
  BLGeometryType t() const { return BLGeometryType(type); }
};
struct Stat { uint64_t calls = 0, rejected = 0; Hash h; void add(BLResult e, uint32_t op) { calls++; if (e != BL_SUCCESS) { rejected++; } h.add(op).add(e); if (st().verbose) fprintf(stderr, "op %u -> %u\n", op, e); } };

static BLApproximationOptions rnd_approx(Gen& g) { BLApproximationOptions a{}; a.flatten_mode = uint8_t(g.e(1)); a.offset_mode = uint8_t(g.e(1)); a.flatten_tolerance = g.r.chance(1, 2) ? 0.2 : g.d(); a.simplify_tolerance = g.r.chance(1, 2) ? 0.05 : g.d(); a.offset_parameter = g.r.chance(1, 2) ? 0.4 : g.d(); return a; }
static void rnd_stroke(Gen& g, BLStrokeOptions& o) { o.start_cap = uint8_t(g.e(BL_STROKE_CAP_MAX_VALUE)); o.end_cap = uint8_t(g.e(BL_STROKE_CAP_MAX_VALUE)); o.join = uint8_t(g.e(BL_STROKE_JOIN_MAX_VALUE)); o.transform_order = uint8_t(g.e(1)); o.width = g.d(); o.miter_limit = g.d(); o.dash_offset = g.d(); size_t n = g.r.below(4); for (size_t k = 0; k < n; k++) o.dash_array.append(g.d()); }

static BLResult path_call(Gen& g, BLPath& p, BLPath& q, uint32_t& op) {
  Rng& r = g.r; BLPathCore* c = &p; BLPathCore* o = r.chance(1, 6) ? &p : &q; op = uint32_t(r.below(44)); size_t n = p.size(); double a[6]; for (double& x : a) x = g.d();
  switch (op) {
    case 0: return bl_path_move_to(c, a[0], a[1]); case 1: return bl_path_line_to(c, a[0], a[1]); case 2: return bl_path_quad_to(c, a[0], a[1], a[2], a[3]); case 3: return bl_path_cubic_to(c, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 4: return bl_path_conic_to(c, a[0], a[1], a[2], a[3], a[4]); case 5: return bl_path_smooth_quad_to(c, a[0], a[1]); case 6: return bl_path_smooth_cubic_to(c, a[0], a[1], a[2], a[3]);
    case 7: return bl_path_arc_to(c, a[0], a[1], a[2], a[3], a[4], a[5], r.chance(1, 2)); case 8: return bl_path_arc_quadrant_to(c, a[0], a[1], a[2], a[3]); case 9: return bl_path_elliptic_arc_to(c, a[0], a[1], a[2], r.chance(1, 2), r.chance(1, 2), a[3], a[4]);
    case 10: return bl_path_close(c); case 11: { std::vector<BLPoint> v(r.below(20)); for (auto& x : v) x = g.pt(); return bl_path_poly_to(c, v.data(), v.size()); }
    case 12: case 13: case 14: { Geom ge(g, o); BLMatrix2D m = g.mat(); return bl_path_add_geometry(c, ge.t(), ge.data, r.chance(1, 2) ? &m : nullptr, BLGeometryDirection(g.e(2))); }
    case 15: { BLRectI b = g.rci(); return bl_path_add_box_i(c, (BLBoxI*)&b, BLGeometryDirection(g.e(2))); } case 16: { BLRect b = g.rc(); return bl_path_add_box_d(c, (BLBox*)&b, BLGeometryDirection(g.e(2))); }
    case 17: { BLRectI b = g.rci(); return bl_path_add_rect_i(c, &b, BLGeometryDirection(g.e(2))); } case 18: { BLRect b = g.rc(); return bl_path_add_rect_d(c, &b, BLGeometryDirection(g.e(2))); }
    case 19: { BLRange k = g.range(((BLPath*)o)->size()); return bl_path_add_path(c, o, r.chance(1, 3) ? nullptr : &k); } case 20: { BLRange k = g.range(((BLPath*)o)->size()); BLPoint t = g.pt(); return bl_path_add_translated_path(c, o, r.chance(1, 3) ? nullptr : &k, &t); }
    case 21: { BLRange k = g.range(((BLPath*)o)->size()); BLMatrix2D m = g.mat(); return bl_path_add_transformed_path(c, o, r.chance(1, 3) ? nullptr : &k, &m); } case 22: { BLRange k = g.range(((BLPath*)o)->size()); return bl_path_add_reversed_path(c, o, r.chance(1, 3) ? nullptr : &k, BLPathReverseMode(g.e(1))); }
    case 23: case 24: { BLRange k = g.range(((BLPath*)o)->size()); BLStrokeOptions so; rnd_stroke(g, so); BLApproximationOptions ao = rnd_approx(g); return bl_path_add_stroked_path(c, o, r.chance(1, 2) ? nullptr : &k, &so, r.chance(1, 2) ? &ao : &bl_default_approximation_options); }
    case 25: { BLRange k = g.range(n); return bl_path_remove_range(c, r.chance(1, 4) ? nullptr : &k); } case 26: { BLRange k = g.range(n); BLPoint t = g.pt(); return bl_path_translate(c, r.chance(1, 3) ? nullptr : &k, &t); }
    case 27: { BLRange k = g.range(n); BLMatrix2D m = g.mat(); return bl_path_transform(c, r.chance(1, 3) ? nullptr : &k, &m); } case 28: { BLRange k = g.range(n); BLRect b = g.rc(); return bl_path_fit_to(c, r.chance(1, 3) ? nullptr : &k, &b, r.chance(3, 4) ? 0 : g.flags()); }
    case 29: { uint32_t f; return bl_path_get_info_flags(c, &f); } case 30: { BLBox b; return bl_path_get_control_box(c, &b); } case 31: { BLBox b; return bl_path_get_bounding_box(c, &b); } case 32: { BLRange k; return bl_path_get_figure_range(c, g.idx(n), &k); }
    case 33: { BLPoint v; return bl_path_get_last_vertex(c, &v); } case 34: { BLPoint v = g.pt(); size_t ix; double ds; return bl_path_get_closest_vertex(c, &v, a[0], &ix, &ds); } case 35: { BLPoint v = g.pt(); return bl_path_hit_test(c, &v, BLFillRule(g.e(1))) == BL_HIT_TEST_INVALID; }
    case 36: return bl_path_reserve(c, g.big()); case 37: return bl_path_shrink(c); case 38: { uint32_t cmd = BL_PATH_CMD_PRESERVE; return bl_path_set_vertex_at(c, g.idx(n), cmd, a[0], a[1]); }
    case 39: { size_t m = g.big(); if (m < 1000) m += SIZE_MAX - 2000; uint8_t* cd; BLPoint* vd; BLResult e = bl_path_modify_op(c, BLModifyOp(2 + r.below(2)), m, &cd, &vd); VH_CHECK(e != BL_SUCCESS, "path-modify-op-huge", "modify_op of %zu more vertices of a path of %zu succeeded", m, n); return e; }
    case 40: { BLMatrix2D m = g.mat(); BLMatrix2D inv; return bl_matrix2d_invert(&inv, &m); } case 41: { BLMatrix2D m = g.mat(); double v[6]; for (double& x : v) x = g.d(); BLTransformOp t = BLTransformOp(g.e(BL_TRANSFORM_OP_MAX_VALUE)); BLResult e = bl_matrix2d_apply_op(&m, t, v); (void)bl_matrix2d_get_type(&m); return e; }
    case 42: return bl_path_assign_weak(c, o); default: return r.chance(1, 3) ? bl_path_clear(c) : bl_path_assign_deep(c, o);
  }
}
static void probe_path(BLPath& p) {
  VH_CHECK(p.clear() == BL_SUCCESS && p.is_empty(), "probe-path", "clear() failed"); BLBox b; VH_CHECK(p.add_rect(1, 2, 3, 4) == BL_SUCCESS && p.get_bounding_box(&b) == BL_SUCCESS, "probe-path", "a cleared path cannot be used");
  VH_CHECK(p.size() == 5 && b == BLBox(1, 2, 4, 6), "probe-path", "a rectangle added to a cleared path has %zu vertices, box %g %g %g %g", p.size(), b.x0, b.y0, b.x1, b.y1);
}

static BLResult gradient_call(Gen& g, BLGradient& gr, uint32_t& op) {
  Rng& r = g.r; op = 100 + uint32_t(r.below(20)); size_t n = gr.size(); BLGradientCore* c = &gr; double v[6]; for (double& x : v) x = g.d(); std::vector<BLGradientStop> s(r.below(8)); for (auto& x : s) { x.offset = r.chance(1, 2) ? r.unit() : g.d(); x.rgba.value = r.u64(); }
  switch (op) {
    case 100: { BLMatrix2D m = g.mat(); return bl_gradient_create(c, BLGradientType(g.e(2)), v, BLExtendMode(g.e(BL_EXTEND_MODE_SIMPLE_MAX_VALUE)), s.data(), s.size(), r.chance(1, 2) ? &m : nullptr); }
    case 101: return bl_gradient_set_type(c, BLGradientType(g.e(2))); case 102: return bl_gradient_set_extend_mode(c, BLExtendMode(g.e(BL_EXTEND_MODE_MAX_VALUE))); case 103: (void)bl_gradient_get_value(c, g.idx(6)); return bl_gradient_set_value(c, g.idx(6), v[0]);
    case 104: { size_t ix = g.idx(6); return bl_gradient_set_values(c, ix, v, r.below(7)); } case 105: return bl_gradient_assign_stops(c, s.data(), s.size()); case 106: case 107: return bl_gradient_add_stop_rgba32(c, r.chance(1, 2) ? r.unit() : g.d(), r.u32()); case 108: return bl_gradient_add_stop_rgba64(c, g.d(), r.u64());
    case 109: return bl_gradient_remove_stop(c, g.idx(n)); case 110: return bl_gradient_remove_stop_by_offset(c, g.d(), r.u32()); case 111: { size_t a = g.idx(n); return bl_gradient_remove_stops_by_index(c, a, g.idx(n)); } case 112: return bl_gradient_remove_stops_by_offset(c, v[0], v[1]);
    case 113: return bl_gradient_replace_stop_rgba32(c, g.idx(n), r.chance(1, 2) ? r.unit() : g.d(), r.u32()); case 114: return bl_gradient_replace_stop_rgba64(c, g.idx(n), g.d(), r.u64()); case 115: return bl_gradient_apply_transform_op(c, BLTransformOp(g.e(BL_TRANSFORM_OP_MAX_VALUE)), v);
    case 116: return bl_gradient_reserve(c, g.big()); case 117: return bl_gradient_shrink(c); case 118: (void)bl_gradient_index_of_stop(c, v[0]); return BL_SUCCESS; default: return bl_gradient_reset_stops(c);
  }
}
static BLResult pattern_call(Gen& g, BLPattern& p, const BLImage& img, uint32_t& op) {
  Rng& r = g.r; op = 130 + uint32_t(r.below(6)); BLPatternCore* c = &p; BLRectI a = g.rci(); double v[6]; for (double& x : v) x = g.d();
  switch (op) {
    case 130: { BLMatrix2D m = g.mat(); return bl_pattern_create(c, &img, r.chance(1, 2) ? &a : nullptr, BLExtendMode(g.e(BL_EXTEND_MODE_MAX_VALUE)), r.chance(1, 2) ? &m : nullptr); } case 131: return bl_pattern_set_image(c, &img, r.chance(1, 2) ? &a : nullptr);
    case 132: return bl_pattern_set_area(c, &a); case 133: return bl_pattern_set_extend_mode(c, BLExtendMode(g.e(BL_EXTEND_MODE_MAX_VALUE))); case 134: return bl_pattern_apply_transform_op(c, BLTransformOp(g.e(BL_TRANSFORM_OP_MAX_VALUE)), v); default: return bl_pattern_reset_area(c);
  }
}

struct Objs { BLPath p[3]; BLGradient gr[2]; BLPattern pt[2]; BLImage img[4]; BLImage target; std::vector<uint8_t> text; };
static BLRgba rgbaf(Gen& g) { auto f = [&]() { return float(g.r.chance(1, 2) ? g.r.unit() : g.finite()); }; BLRgba c(f(), f(), f(), f()); if (g.r.chance(1, 3)) c.r = float(NAN); if (g.r.chance(1, 8)) c.a = INFINITY; return c; }
static BLResult ctx_call(Gen& g, BLContext& x, Objs& o, uint32_t& op) {
  Rng& r = g.r; BLContextCore* c = &x; op = 200 + uint32_t(r.below(62)); double v[6]; for (double& y : v) y = g.d(); BLPath& path = o.p[r.below(3)]; BLRect rd = g.rc(); BLRectI ri = g.rci(); BLPoint pd = r.chance(1, 2) ? BLPoint(0, 0) : g.pt(); BLPointI pi = g.pti(); const BLImage& img = o.img[r.below(4)]; uint32_t col = r.u32();
  BLRgba cf = rgbaf(g); BLRgba32 c32(col); BLVar var; const BLUnknown* sty; switch (r.below(6)) { case 0: sty = (const BLUnknown*)&o.gr[r.below(2)]; break; case 1: sty = (const BLUnknown*)&o.pt[r.below(2)]; break; case 2: var = cf; sty = (const BLUnknown*)&var; break; case 3: sty = (const BLUnknown*)&path; break; case 4: sty = (const BLUnknown*)&o.img[r.below(4)]; break; default: var = c32; sty = (const BLUnknown*)&var; break; }
  switch (op) {
    case 200: return bl_context_user_to_meta(c); case 201: case 202: case 203: return bl_context_apply_transform_op(c, BLTransformOp(g.e(BL_TRANSFORM_OP_MAX_VALUE)), v); case 204: return bl_context_set_hint(c, BLContextHint(g.e(7)), r.chance(1, 2) ? uint32_t(r.below(4)) : r.u32()); case 205: { BLContextHints h; for (auto& b : h.hints) b = r.chance(1, 2) ? 0 : uint8_t(r.u32()); return bl_context_set_hints(c, &h); }
    case 206: return bl_context_set_flatten_mode(c, BLFlattenMode(g.e(1))); case 207: return bl_context_set_flatten_tolerance(c, v[0]); case 208: { BLApproximationOptions a = rnd_approx(g); return bl_context_set_approximation_options(c, &a); }
    case 209: case 210: return bl_context_set_fill_style(c, sty); case 211: return bl_context_set_fill_style_with_mode(c, sty, BLContextStyleTransformMode(g.e(2))); case 212: return bl_context_set_fill_style_rgba(c, &cf); case 213: return bl_context_set_fill_style_rgba32(c, col); case 214: return bl_context_disable_fill_style(c); case 215: return bl_context_set_fill_alpha(c, r.chance(1, 2) ? 1.0 : v[0]);
    case 216: case 217: return bl_context_set_stroke_style(c, sty); case 218: return bl_context_set_stroke_style_with_mode(c, sty, BLContextStyleTransformMode(g.e(2))); case 219: return bl_context_set_stroke_alpha(c, r.chance(1, 2) ? 1.0 : v[0]); case 220: return bl_context_swap_styles(c, BLContextStyleSwapMode(g.e(1))); case 221: return bl_context_set_global_alpha(c, r.chance(1, 2) ? 1.0 : v[0]);
    case 222: return bl_context_set_comp_op(c, BLCompOp(g.e(BL_COMP_OP_MAX_VALUE))); case 223: return bl_context_set_fill_rule(c, BLFillRule(g.e(1))); case 224: return bl_context_set_stroke_width(c, v[0]); case 225: return bl_context_set_stroke_miter_limit(c, v[0]); case 226: return bl_context_set_stroke_cap(c, BLStrokeCapPosition(g.e(1)), BLStrokeCap(g.e(BL_STROKE_CAP_MAX_VALUE))); case 227: return bl_context_set_stroke_caps(c, BLStrokeCap(g.e(BL_STROKE_CAP_MAX_VALUE)));
    case 228: return bl_context_set_stroke_join(c, BLStrokeJoin(g.e(BL_STROKE_JOIN_MAX_VALUE))); case 229: return bl_context_set_stroke_transform_order(c, BLStrokeTransformOrder(g.e(1))); case 230: return bl_context_set_stroke_dash_offset(c, v[0]); case 231: { BLArray<double> a; for (size_t k = r.below(4); k; k--) a.append(g.d()); return bl_context_set_stroke_dash_array(c, &a); } case 232: { BLStrokeOptions s; rnd_stroke(g, s); return bl_context_set_stroke_options(c, &s); }
    case 233: return bl_context_clip_to_rect_i(c, &ri); case 234: return bl_context_clip_to_rect_d(c, &rd); case 235: case 236: return bl_context_restore_clipping(c); case 237: return bl_context_clear_rect_i(c, &ri); case 238: return bl_context_clear_rect_d(c, &rd); case 239: return bl_context_fill_all_ext(c, sty);
    case 240: return bl_context_fill_rect_i(c, &ri); case 241: return bl_context_fill_rect_i_ext(c, &ri, sty); case 242: return bl_context_fill_rect_d(c, &rd); case 243: return bl_context_fill_rect_d_ext(c, &rd, sty); case 244: return bl_context_fill_path_d(c, &pd, &path); case 245: return bl_context_fill_path_d_ext(c, &pd, &path, sty); case 246: case 247: { Geom ge(g, &path); return bl_context_fill_geometry(c, ge.t(), ge.data); } case 248: { Geom ge(g, &path); return bl_context_fill_geometry_rgba32(c, ge.t(), ge.data, col); }
    case 249: return bl_context_fill_mask_i(c, &pi, &img, r.chance(1, 2) ? &ri : nullptr); case 250: return bl_context_fill_mask_d(c, &pd, &img, r.chance(1, 2) ? &ri : nullptr); case 251: return bl_context_stroke_rect_d(c, &rd); case 252: return bl_context_stroke_path_d(c, &pd, &path); case 253: { Geom ge(g, &path); return bl_context_stroke_geometry(c, ge.t(), ge.data); } case 254: { Geom ge(g, &path); return bl_context_stroke_geometry_ext(c, ge.t(), ge.data, sty); }
    case 255: return bl_context_blit_image_i(c, &pi, &img, r.chance(1, 2) ? &ri : nullptr); case 256: return bl_context_blit_image_d(c, &pd, &img, r.chance(1, 2) ? &ri : nullptr); case 257: { BLRectI q = g.rci(); return bl_context_blit_scaled_image_i(c, &q, &img, r.chance(1, 2) ? &ri : nullptr); } case 258: return bl_context_blit_scaled_image_d(c, &rd, &img, r.chance(1, 2) ? &ri : nullptr);
    case 259: { BLFont f = g_font; if (r.chance(1, 2)) { BLResult e = f.set_size(float(g.d())); if (e != BL_SUCCESS && r.chance(1, 2)) return e; } static const char t[] = "Wa\xC3\xA9."; size_t n = r.chance(1, 2) ? SIZE_MAX : r.below(6); return r.chance(1, 2) ? bl_context_fill_utf8_text_d(c, &pd, &f, t, n) : r.chance(1, 2) ? bl_context_fill_utf8_text_i(c, &pi, &f, t, n) : bl_context_stroke_utf8_text_d(c, &pd, &f, t, n); }
    case 260: { BLFont f = g_font; if (r.chance(1, 2)) f.set_size(float(g.d())); uint32_t ids[6]; BLGlyphPlacement pl[6]; BLPoint po[6]; for (int k = 0; k < 6; k++) { ids[k] = r.chance(1, 2) ? uint32_t(r.below(200)) : r.chance(1, 2) ? uint32_t(65535 + r.below(3)) : r.u32(); pl[k].placement = g.pti(); pl[k].advance = g.pti(); po[k] = g.pt(); }
      BLGlyphRun gl{}; gl.glyph_data = ids; gl.glyph_advance = 4; gl.size = r.below(7); gl.placement_type = uint8_t(g.e(BL_GLYPH_PLACEMENT_TYPE_MAX_VALUE)); if (gl.placement_type == 1) { gl.placement_data = pl; gl.placement_advance = sizeof(BLGlyphPlacement); } else { gl.placement_data = po; gl.placement_advance = sizeof(BLPoint); } if (gl.placement_type > 3) gl.placement_data = pl, gl.placement_advance = 16; gl.flags = g.flags();
      return r.chance(1, 2) ? bl_context_fill_glyph_run_d(c, &pd, &f, &gl) : r.chance(1, 2) ? bl_context_fill_glyph_run_i(c, &pi, &f, &gl) : bl_context_stroke_glyph_run_d(c, &pd, &f, &gl); }
    default: { if (r.chance(1, 3)) return bl_context_flush(c, BLContextFlushFlags(g.flags())); if (r.chance(1, 2)) return bl_context_save(c, nullptr); BLContextCookie k; k.reset(r.u64(), r.u64()); return bl_context_restore(c, r.chance(1, 2) ? &k : nullptr); }
  }
}
static void make_images(Gen& g, Objs& o) {
  Rng& r = g.r; static const BLFormat f[] = {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8};
  for (int k = 0; k < 4; k++) { if (k == 3 && r.chance(1, 2)) continue; int w = 1 + int(r.below(k == 0 ? 3 : 40)), h = 1 + int(r.below(30)); VH_OK(o.img[k].create(w, h, f[r.below(3)]), "image-create"); BLImageData d; VH_OK(o.img[k].make_mutable(&d), "image-mutable"); for (int y = 0; y < h; y++) memset((uint8_t*)d.pixel_data + y * d.stride, int(r.below(256)), size_t(w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); }
}
static void case_context(uint64_t id, Rng& r) {
  Gen g{r, int(r.below(3))}; Objs o; make_images(g, o); Stat s; uint32_t op = 0; Gen sane{r, 0};
  for (auto& p : o.p) for (int k = int(r.below(10)); k; k--) { s.add(path_call(r.chance(1, 2) ? g : sane, p, o.p[0], op), op); if (p.size() > 600) p.clear(); }
  for (auto& x : o.gr) for (int k = int(r.below(10)); k; k--) s.add(gradient_call(g, x, op), op);
  for (auto& x : o.pt) for (int k = int(r.below(5)); k; k--) s.add(pattern_call(g, x, o.img[r.below(4)], op), op);
  int w = 1 + int(r.below(70)), h = 1 + int(r.below(50)); static const BLFormat fm[] = {BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}; BLFormat f = r.pick(fm); int bp = f == BL_FORMAT_A8 ? 1 : 4; size_t total = size_t(w) * h * bp; uint8_t* mem = (uint8_t*)malloc(total); memset(mem, 0x55, total);
  std::unique_ptr<uint8_t, void (*)(void*)> holder(mem, free); BLImage t; VH_OK(t.create_from_data(w, h, f, mem, intptr_t(w) * bp), "target");
  BLContextCreateInfo ci{}; bool async = r.chance(1, 10); if (async) ci.thread_count = 1 + uint32_t(r.below(3)); if (r.chance(1, 8)) { ci.flags = g.flags() & ~uint32_t(BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL); ci.cpu_features = 0; ci.command_queue_limit = r.chance(1, 2) ? r.u32() : uint32_t(r.below(3)); ci.pixel_origin = g.pti(); ci.saved_state_limit = uint32_t(r.chance(1, 2) ? r.u32() : r.below(3)); }
  BLContext x; BLResult e = x.begin(t, ci); if (e != BL_SUCCESS) { count("begin-rejected"); for (auto& p : o.p) probe_path(p); return; }
  BLContextCookie ck; bool have = x.save(ck) == BL_SUCCESS; uint32_t lim = 8 + uint32_t(r.below(40));
  for (uint32_t k = 0; k < lim; k++) s.add(ctx_call(g, x, o, op), op);
  count("drawing-calls", s.calls); count("rejected-calls", s.rejected);
  if (have) {
    VH_OK(x.restore(ck), "restore-cookie"); x.set_comp_op(BL_COMP_OP_SRC_COPY); uint32_t col = r.u32() | 0xFF000000u; VH_OK(x.fill_rect(BLRectI(0, 0, w, h), BLRgba32(col)), "probe-fill"); VH_OK(x.flush(BL_CONTEXT_FLUSH_SYNC), "probe-flush");
    for (int k = 0; k < w * h; k++) { uint32_t v = 0, want = bp == 1 ? 255u : col; memcpy(&v, mem + size_t(k) * bp, size_t(bp)); VH_CHECK(v == want, "probe-fill", "after hostile calls a fill of the whole target with %08x left %08x at (%d,%d)", want, v, k % w, k / w); }
    BLBox tri(0, 0, w, h); BLPath p; p.add_box(tri); p.line_to(w * 0.5, h * 0.5); x.set_comp_op(BL_COMP_OP_SRC_OVER); col ^= 0xFFFFFF; VH_OK(x.fill_path(p, BLRgba32(col)), "probe-path-fill"); VH_OK(x.flush(BL_CONTEXT_FLUSH_SYNC), "probe-flush");
    for (int k = 0; k < w * h; k++) { uint32_t v = 0, want = bp == 1 ? 255u : col; memcpy(&v, mem + size_t(k) * bp, size_t(bp)); VH_CHECK(v == want, "probe-path-fill", "after hostile calls a path over the whole target filled with %08x left %08x at (%d,%d)", want, v, k % w, k / w); }
    count("contexts-probed");
  }
  VH_OK(x.end(), "end"); for (auto& p : o.p) probe_path(p); distinct(s.h.h); if (id % 997 == 0) sample("context %dx%d format %d threads %u: %llu hostile calls, %llu rejected, pixels as expected after restore", w, h, int(f), ci.thread_count, (unsigned long long)s.calls, (unsigned long long)s.rejected);
}
static void case_paths(uint64_t, Rng& r) {
  Gen g{r, int(r.below(3))}; BLPath p[3]; Stat s; uint32_t op; for (int k = 20 + int(r.below(60)); k; k--) { BLPath& q = p[r.below(3)]; s.add(path_call(g, q, p[r.below(3)], op), op); if (q.size() > 600) q.clear(); }
  for (auto& q : p) probe_path(q); count("path-calls", s.calls); count("rejected-calls", s.rejected); distinct(s.h.h);
}
static void case_styles(uint64_t, Rng& r) {
  Gen g{r, int(r.below(3))}; Objs o; make_images(g, o); Stat s; uint32_t op; for (int k = 60; k; k--) { s.add(r.chance(2, 3) ? gradient_call(g, o.gr[r.below(2)], op) : pattern_call(g, o.pt[r.below(2)], o.img[r.below(4)], op), op); }
  for (auto& x : o.gr) { VH_OK(x.reset_stops(), "probe-gradient"); VH_OK(x.add_stop(0.5, BLRgba32(0xFF102030u)), "probe-gradient"); VH_CHECK(x.size() == 1 && x.stops()[0].offset == 0.5 && x.stops()[0].rgba == BLRgba64(BLRgba32(0xFF102030u)), "probe-gradient", "a stop added to a reset gradient is wrong"); }
  for (auto& x : o.pt) { BLImage i(5, 6, BL_FORMAT_PRGB32); VH_OK(x.create(i, BLRectI(1, 2, 3, 4), BL_EXTEND_MODE_REPEAT), "probe-pattern"); VH_CHECK(x.area() == BLRectI(1, 2, 3, 4), "probe-pattern", "area"); }
  count("style-calls", s.calls); count("rejected-calls", s.rejected); distinct(s.h.h);
}
static void case_images(uint64_t, Rng& r) {
  Gen g{r, int(r.below(3))}; BLImage im; Stat s;
  for (int k = 0; k < 12; k++) {
    uint32_t op = 300 + uint32_t(r.below(8)); BLResult e = BL_SUCCESS;
    // Valid huge images only cost memory: one of the two sizes is hostile, the other zero, negative or small enough.
    int w = g.i(), h = g.i(); if (w > 0 && h > 0 && w <= 65535 && h <= 65535 && int64_t(w) * h > 2000000) { (r.chance(1, 2) ? w : h) = int(r.range(-3, 20)); }
    switch (op) {
      case 300: case 301: e = bl_image_create(&im, w, h, BLFormat(g.e(3))); VH_CHECK(e != BL_SUCCESS || (im.width() == w && im.height() == h && ((w > 0 && h > 0) || (w == 0 && h == 0 && im.format() == BL_FORMAT_NONE))), "image-size", "create(%d,%d) gave %dx%d", w, h, im.width(), im.height()); break;
      case 302: { alignas(8) static uint8_t mem[64 * 64 * 4]; int w2 = g.i(), h2 = g.i(); intptr_t sd = r.chance(1, 2) ? intptr_t(g.i()) : intptr_t(r.u64()); bool small = w2 > 0 && h2 > 0 && w2 <= 64 && h2 <= 64; if (small) sd = r.chance(1, 2) ? 256 : sd; if (small && (sd > 256 || sd < 0)) sd = 256; e = bl_image_create_from_data(&im, w2, h2, BLFormat(g.e(3)), mem, sd, BLDataAccessFlags(g.e(3)), nullptr, nullptr); if (e == BL_SUCCESS && !small) { VH_CHECK(w2 > 0 && h2 > 0, "image-size", "create_from_data(%d,%d) succeeded", w2, h2); im.reset(); } break; }
      case 303: { BLSizeI sz(w, h); BLImage dst; if (w > 0 && h > 0 && int64_t(w) * h > 200000) sz.h = -1; e = bl_image_scale(&dst, &im, &sz, BLImageScaleFilter(g.e(BL_IMAGE_SCALE_FILTER_MAX_VALUE))); VH_CHECK(e != BL_SUCCESS || (im.is_empty() ? dst.is_empty() : dst.width() == sz.w && dst.height() == sz.h), "image-scale-size", "scale to %dx%d gave %dx%d", sz.w, sz.h, dst.width(), dst.height()); break; }
      case 304: e = bl_image_convert(&im, BLFormat(g.e(3))); break; case 305: { BLImageData d; e = bl_image_make_mutable(&im, &d); break; } case 306: { BLImage i2(im); e = bl_image_assign_deep(&im, &i2); break; }
      default: { BLFormatInfo a{}, b{}; for (BLFormatInfo* q : {&a, &b}) { if (r.chance(1, 4)) { *q = bl_format_info[1 + r.below(3)]; if (r.chance(1, 3)) q->flags = BLFormatFlags((q->flags ^ (1u << r.below(32))) & ~uint32_t(BL_FORMAT_FLAG_INDEXED)); continue; } q->depth = r.chance(1, 2) ? uint32_t(8u << r.below(4)) : g.flags(); q->flags = BLFormatFlags(g.flags() & ~uint32_t(BL_FORMAT_FLAG_INDEXED)); for (int k2 = 0; k2 < 4; k2++) { q->sizes[k2] = uint8_t(r.chance(2, 3) ? r.below(17) : r.u32()); q->shifts[k2] = uint8_t(r.chance(2, 3) ? r.below(33) : r.u32()); } }
        BLPixelConverter pc; e = pc.create(a, b, BLPixelConverterCreateFlags(r.chance(1, 2) ? 0 : g.flags())); if (e == BL_SUCCESS) { std::vector<uint8_t> src(32 * 16 + 64, 0x5A), dst(32 * 16 + 64); uint32_t cw = uint32_t(r.below(9)), ch = uint32_t(r.below(3)); BLPixelConverterOptions po{}; po.origin = g.pti(); pc.convert_rect(dst.data(), 128, src.data(), 128, cw, ch, &po); } s.add(e, op); BLFormatInfo sz = a; e = sz.sanitize(); break; }
    }
    s.add(e, op);
  }
  VH_OK(im.create(3, 2, BL_FORMAT_PRGB32), "probe-image"); VH_CHECK(im.width() == 3 && im.height() == 2, "probe-image", "size"); count("image-calls", s.calls); count("rejected-calls", s.rejected); distinct(s.h.h);
}
static void case_containers(uint64_t, Rng& r) {
  Gen g{r, int(r.below(3))}; Stat s; BLBitSet b[2]; BLBitArray a[2]; BLString str; BLArray<double> arr; static const uint32_t words[8] = {~0u, 0, 0x80000001u, 5, ~0u, ~0u, 0, 1};
  for (int k = 0; k < 40; k++) {
    uint32_t op = 400 + uint32_t(r.below(44)); BLResult e = BL_SUCCESS; uint32_t i = g.bit(), j = g.bit(), w = uint32_t(r.below(9)); BLBitSet& B = b[r.below(2)]; BLBitArray& A = a[r.below(2)]; size_t n = g.big(), x = g.idx(arr.size()), y = g.idx(arr.size()), sx = g.idx(str.size()), sy = g.idx(str.size());
    if (A.size() > 100000) A.reset();
    uint32_t sj = A.size() > 4000 ? 32 : uint32_t(g.bit()); bool okA = sj < 1u << 24;
    switch (op) {
      case 400: e = B.assign_range(i, j); break; case 401: e = bl_bit_set_assign_words(&B, g.bit(), words, w); break; case 402: B.has_bit(i); B.has_bits_in_range(i, j); break; case 403: e = B.chop(i, j); break; case 404: e = B.add_bit(i); break; case 405: e = B.add_range(i, j); break; case 406: e = bl_bit_set_add_words(&B, g.bit(), words, w); break;
      case 407: e = B.clear_bit(i); break; case 408: e = B.clear_range(i, j); break; case 409: { BLBitSet q(B); e = bl_bit_set_chop(&q, i, j); break; } case 410: { uint32_t q[3]; bl_bit_set_get_range(&B, q, q + 1); bl_bit_set_get_cardinality(&B); bl_bit_set_get_cardinality_in_range(&B, i, j); break; }
      case 411: e = B.optimize(); break; case 412: e = B.shrink(); break; case 413: bl_bit_set_subsumes(&b[0], &b[1]); bl_bit_set_intersects(&b[0], &b[1]); bl_bit_set_compare(&b[0], &b[1]); bl_bit_set_equals(&b[0], &b[1]); break;
      case 414: e = bl_bit_array_resize(&A, okA ? sj : uint32_t(r.below(3000))); break; case 415: if (okA) e = bl_bit_array_reserve(&A, sj); break; case 416: e = bl_bit_array_set_bit(&A, i); break; case 417: e = bl_bit_array_fill_range(&A, i, j); break; case 418: e = bl_bit_array_fill_words(&A, i, words, w); break; case 419: e = bl_bit_array_clear_bit(&A, i); break; case 420: e = bl_bit_array_clear_range(&A, i, j); break;
      case 421: e = bl_bit_array_clear_word(&A, i, r.u32()); break; case 422: e = bl_bit_array_clear_words(&A, i, words, w); break; case 423: e = bl_bit_array_replace_bit(&A, i, r.chance(1, 2)); break; case 424: e = bl_bit_array_replace_word(&A, i, r.u32()); break; case 425: e = bl_bit_array_replace_words(&A, i, words, w); break; case 426: e = bl_bit_array_append_words(&A, words, w); break;
      case 427: bl_bit_array_has_bit(&A, i); bl_bit_array_has_bits_in_range(&A, i, j); bl_bit_array_get_cardinality_in_range(&A, i, j); break; case 428: { uint32_t q[2]; bl_bit_array_get_range(&A, q, q + 1); bl_bit_array_intersects(&a[0], &a[1]); bl_bit_array_subsumes(&a[0], &a[1]); bl_bit_array_compare(&a[0], &a[1]); break; } case 429: e = bl_bit_array_append_bit(&A, r.chance(1, 2)); if (r.chance(1, 2)) e = bl_bit_array_append_word(&A, r.u32()); break;
      case 430: e = bl_array_reserve(&arr, n); break; case 431: { if (n < 1000) { double fill = 2; e = bl_array_resize(&arr, n, &fill); } else { double fill = 1; e = bl_array_resize(&arr, n, &fill); VH_CHECK(e != BL_SUCCESS, "array-resize-huge", "resize to %zu succeeded", n); } break; } case 432: e = bl_array_remove_index(&arr, x); break; case 433: e = bl_array_remove_range(&arr, x, y); break; case 434: e = bl_array_insert_f64(&arr, x, 5); break; case 435: e = bl_array_replace_f64(&arr, x, 6); break; case 436: { double q[4] = {1, 2, 3, 4}; e = bl_array_replace_data(&arr, x, y, q, r.below(5)); break; }
      case 437: { void* out; if (n < 1000) n = SIZE_MAX - n; e = bl_array_insert_op(&arr, x, n, &out); VH_CHECK(e != BL_SUCCESS, "array-insert-huge", "insert of %zu items succeeded", n); break; } case 438: { char* out; if (n < 1000) n = SIZE_MAX - n; e = bl_string_modify_op(&str, BLModifyOp(r.below(4)), n, &out); VH_CHECK(e != BL_SUCCESS, "string-modify-huge", "modify_op of %zu bytes succeeded", n); break; } case 439: e = bl_string_reserve(&str, n); break; case 440: e = bl_string_remove_range(&str, sx, sy); break; case 441: if (n < 1000) e = bl_string_insert_char(&str, sx, 'x', n); else { e = bl_string_insert_char(&str, sx, 'x', n); VH_CHECK(e != BL_SUCCESS, "string-insert-huge", "insert of %zu chars succeeded", n); } break;
      case 442: str.index_of('x', sx); str.last_index_of('x', sx); e = bl_string_remove_index(&str, sx); break; default: { void* out; if (n < 1000) n = SIZE_MAX - n; e = bl_array_modify_op(&arr, BLModifyOp(r.below(4)), n, &out); VH_CHECK(e != BL_SUCCESS, "array-modify-huge", "modify_op of %zu items succeeded", n); break; }
    }
    s.add(e, op);
    if (str.size() > 3000) str.clear();
  }
  for (auto& q : b) { VH_OK(q.assign_range(3, 6), "probe-bitset"); VH_CHECK(q.cardinality() == 3 && q.has_bit(5) && !q.has_bit(6), "probe-bitset", "assign_range(3,6) has %u bits", q.cardinality()); }
  for (auto& q : a) { q.clear(); VH_OK(q.append_bit(true), "probe-bitarray"); VH_CHECK(q.size() == 1 && q.cardinality() == 1, "probe-bitarray", "size %zu", size_t(q.size())); }
  VH_OK(str.assign("ok"), "probe-string"); VH_CHECK(str.equals("ok") && str.size() == 2, "probe-string", "content"); arr.clear(); VH_OK(arr.append(1.5), "probe-array"); VH_CHECK(arr.size() == 1 && arr[0] == 1.5, "probe-array", "content");
  count("container-calls", s.calls); count("rejected-calls", s.rejected); distinct(s.h.h);
}
static void case_fonts(uint64_t, Rng& r) {
  Gen g{r, int(r.below(3))}; Stat s; BLFont f = g_font; BLGlyphBuffer gb; BLFontFeatureSettings fs; BLFontVariationSettings vs;
  for (int k = 0; k < 14; k++) {
    uint32_t op = 500 + uint32_t(r.below(14)); BLResult e = BL_SUCCESS; uint32_t ids[8]; for (auto& v : ids) v = r.chance(1, 2) ? uint32_t(r.below(300)) : r.chance(1, 2) ? uint32_t(65534 + r.below(4)) : r.u32(); size_t n = r.below(9); BLMatrix2D m = g.mat(); BLPath out;
    switch (op) {
      case 500: e = f.set_size(float(g.d())); break; case 501: { BLFont f2; e = bl_font_create_from_face_with_settings(&f2, &g_face, float(g.d()), &fs, &vs); if (e == BL_SUCCESS) f = f2; break; } case 502: { BLBoxI bx[8]; e = bl_font_get_glyph_bounds(&f, ids, 4, bx, n); break; } case 503: { BLGlyphPlacement gp[8]; e = bl_font_get_glyph_advances(&f, ids, 4, gp, n); break; }
      case 504: e = bl_font_get_glyph_outlines(&f, ids[0], r.chance(1, 2) ? &m : nullptr, &out, nullptr, nullptr); break; case 505: { char t[48]; for (char& c : t) c = char(r.chance(2, 3) ? r.range(32, 126) : r.u32()); e = bl_glyph_buffer_set_text(&gb, t, r.chance(1, 4) ? 0 : r.below(3) * 4, BLTextEncoding(g.e(3))); break; }
      case 506: e = bl_glyph_buffer_set_glyphs(&gb, ids, n); break; case 507: { static const size_t zs[] = {0, 1, 2, 3, 4, 5, 8, SIZE_MAX}; size_t z = r.pick(zs); e = bl_glyph_buffer_set_glyphs_from_struct(&gb, ids, r.below(5), z, r.chance(1, 2) ? 4 : 8); break; }
      case 508: e = f.shape(gb); break; case 509: { BLTextMetrics tm; e = f.get_text_metrics(gb, tm); break; } case 510: { const BLGlyphRun& gr = gb.glyph_run(); e = bl_font_get_glyph_run_outlines(&f, &gr, r.chance(1, 2) ? &m : nullptr, &out, nullptr, nullptr); break; }
      case 511: { BLTag t = r.chance(1, 2) ? BL_MAKE_TAG('l', 'i', 'g', 'a') : r.u32(); e = fs.set_value(t, r.chance(1, 2) ? uint32_t(r.below(3)) : r.u32()); fs.get_value(t); if (r.chance(1, 3)) e = fs.remove_value(t); if (r.chance(1, 2)) e = f.set_feature_settings(fs); break; } case 512: { BLTag t = r.chance(1, 2) ? BL_MAKE_TAG('w', 'g', 'h', 't') : r.u32(); e = vs.set_value(t, float(g.d())); vs.get_value(t); if (r.chance(1, 3)) e = vs.remove_value(t); if (r.chance(1, 2)) e = f.set_variation_settings(vs); break; }
      default: { BLBitArray lk; for (int q = 0; q < 5; q++) lk.append_bit(r.chance(1, 2)); e = r.chance(1, 3) ? bl_font_apply_gsub(&f, &gb, &lk) : r.chance(1, 2) ? bl_font_apply_gpos(&f, &gb, &lk) : r.chance(1, 2) ? bl_font_position_glyphs(&f, &gb) : bl_font_apply_kerning(&f, &gb); break; }
    }
    s.add(e, op);
  }
  VH_OK(f.create_from_face(g_face, 20.0f), "probe-font"); VH_OK(gb.set_utf8_text("AB", 2), "probe-font"); VH_OK(f.shape(gb), "probe-font"); VH_CHECK(gb.size() == 2 && gb.content()[0] == 36 && gb.content()[1] == 37, "probe-font", "AB is shaped as %zu glyphs %u %u", gb.size(), gb.content()[0], gb.size() > 1 ? gb.content()[1] : 0u); BLTextMetrics tm; VH_OK(f.get_text_metrics(gb, tm), "probe-font"); VH_CHECK(tm.advance.x > 5 && tm.advance.x < 60, "probe-font", "advance %g", tm.advance.x);
  count("font-calls", s.calls); count("rejected-calls", s.rejected); distinct(s.h.h);
}
void vh_init() { VH_ASSUME(g_face.create_from_file("/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf") == BL_SUCCESS); VH_ASSUME(g_font.create_from_face(g_face, 20.0f) == BL_SUCCESS); }
void vh_case(uint64_t id, Rng& r) {
  switch (r.below(10)) { case 0: case 1: case 2: case 3: case 4: case_context(id, r); break; case 5: case_paths(id, r); break; case 6: case_styles(id, r); break; case 7: case_images(id, r); break; case 8: case_containers(id, r); break; default: case_fonts(id, r); break; }
}
void vh_finish() {}
