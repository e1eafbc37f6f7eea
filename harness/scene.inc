// Random drawing scenes: a list of operations whose arguments are drawn once, so that the same scene can be replayed on
// any number of rendering contexts.
#include <sanitizer/asan_interface.h>
namespace scene {
using namespace vh;

static inline int bpp(BLFormat f) { return f == BL_FORMAT_A8 ? 1 : 4; }

// An image over external memory: rows separated by padding that is poisoned for AddressSanitizer (as far as its
// granularity allows) and filled with a known pattern.
struct Ext {
  int w = 0, h = 0; BLFormat fmt = BL_FORMAT_PRGB32; intptr_t stride = 0; size_t total = 0; uint8_t* mem = nullptr; uint8_t* top = nullptr; BLImage img; std::vector<uint8_t> ref; bool poisoned = false;
  Ext() {}
  Ext(const Ext&) = delete; Ext& operator=(const Ext&) = delete;
  ~Ext() { img.reset(); if (mem) { ASAN_UNPOISON_MEMORY_REGION(mem, total); free(mem); } }
  uint8_t* row(int y) const { return top + intptr_t(y) * stride; }
  void create(Rng& r, int w_, int h_, BLFormat f, bool pad = true) {
    w = w_; h = h_; fmt = f; int b = bpp(f); intptr_t line = intptr_t(w) * b; intptr_t p = pad ? intptr_t(r.below(3) ? r.below(5) * (b == 4 ? 8 : 5) : 0) : 0; stride = line + p; bool neg = r.chance(1, 5);
    total = size_t(stride) * size_t(h - 1) + size_t(line); mem = (uint8_t*)malloc(total ? total : 1); memset(mem, 0xA7, total); top = neg ? mem + stride * (h - 1) : mem; if (neg) stride = -stride;
    if (p) { for (int y = 0; y + 1 < h; y++) ASAN_POISON_MEMORY_REGION(mem + intptr_t(y) * (line + p) + line, size_t(p)); poisoned = true; }
    VH_OK(img.create_from_data(w, h, f, top, stride), "create-from-data");
  }
  uint32_t get(int x, int y) const { uint8_t* q = row(y) + x * bpp(fmt); if (fmt == BL_FORMAT_A8) return *q; uint32_t v; memcpy(&v, q, 4); return v; }
  void set(int x, int y, uint32_t v) { uint8_t* q = row(y) + x * bpp(fmt); if (fmt == BL_FORMAT_A8) *q = uint8_t(v); else memcpy(q, &v, 4); }
  void snapshot() { ASAN_UNPOISON_MEMORY_REGION(mem, total); ref.assign(mem, mem + total); repoison(); }
  void repoison() { if (!poisoned) return; intptr_t line = intptr_t(w) * bpp(fmt), s = stride < 0 ? -stride : stride; for (int y = 0; y + 1 < h; y++) ASAN_POISON_MEMORY_REGION(mem + y * s + line, size_t(s - line)); }
  void unpoison() { ASAN_UNPOISON_MEMORY_REGION(mem, total); }
  // Returns true if anything outside [x0,x1) x [y0,y1) changed since the snapshot.
  bool changed_outside(int x0, int y0, int x1, int y1, int& ox, int& oy) {
    unpoison(); bool bad = false; intptr_t line = intptr_t(w) * bpp(fmt), s = stride < 0 ? -stride : stride;
    for (int m = 0; m < h && !bad; m++) { int y = stride < 0 ? h - 1 - m : m; const uint8_t* a = mem + m * s; const uint8_t* b = ref.data() + m * s;
      if (y < y0 || y >= y1 || x0 >= x1) { if (memcmp(a, b, size_t(line))) { bad = true; oy = y; for (ox = 0; ox < w && !memcmp(a + ox * bpp(fmt), b + ox * bpp(fmt), size_t(bpp(fmt))); ox++); } }
      else { for (int x = 0; x < w && !bad; x++) if ((x < x0 || x >= x1) && memcmp(a + x * bpp(fmt), b + x * bpp(fmt), size_t(bpp(fmt)))) { bad = true; ox = x; oy = y; } }
      if (!bad && m + 1 < h && memcmp(a + line, b + line, size_t(s - line))) { bad = true; oy = y; ox = w; } }
    repoison(); return bad;
  }
};

static inline uint32_t rnd_prgb(Rng& r) {
  uint32_t a = r.chance(1, 3) ? 255 : r.chance(1, 6) ? 0 : uint32_t(r.below(256)); auto c = [&]() { return a ? uint32_t(r.below(a + 1)) : 0u; }; return a << 24 | c() << 16 | c() << 8 | c();
}
static inline void fill_random(Rng& r, Ext& e) {
  int style = int(r.below(4)); uint32_t last = rnd_prgb(r);
  for (int y = 0; y < e.h; y++) for (int x = 0; x < e.w; x++) { if (style == 0 || (style == 1 && r.chance(1, 4))) last = rnd_prgb(r); else if (style == 2 && x == 0) last = rnd_prgb(r); e.set(x, y, e.fmt == BL_FORMAT_XRGB32 ? last | 0xFF000000u : e.fmt == BL_FORMAT_A8 ? last >> 24 : last); }
}
static inline BLFormat rnd_format(Rng& r) { static const BLFormat f[] = {BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}; return r.pick(f); }

struct Op { std::function<BLResult(BLContext&)> f; std::string d; bool draws = false; };
struct Gen {
  Rng& r; int W, H; std::vector<std::unique_ptr<Ext>> images; std::vector<BLFont> fonts; bool weird = false; bool clip_ops = true; bool other_ops = true;
  Gen(Rng& r_, int w, int h) : r(r_), W(w), H(h) {}
  double x() { return coord(W); } double y() { return coord(H); }
  double coord(int n) { switch (r.below(weird ? 14 : 8)) { case 0: return double(r.range(-4, n + 4)); case 1: return double(r.range(-8, 2 * n + 8)) * 0.5; case 2: return r.dbl(-3.0 * n, 4.0 * n); case 3: return double(r.range(0, n)) + double(r.range(-2, 2)) / 256.0;
      case 8: return r.dbl(-1, 1) * pow(10, r.dbl(2, 12)); case 9: { static const double w[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e-300, 2147483648.0, -2147483649.0, 8388608, 16777217.5, 0.0, -0.0}; return r.pick(w); } default: return r.dbl(-2, n + 2); } }
  double size(int n) { switch (r.below(weird ? 8 : 6)) { case 0: return double(r.range(0, n)); case 1: return r.dbl(0, 3); case 2: return r.dbl(0, 2.0 * n); case 6: return coord(n); case 7: return -r.dbl(0, n); default: return r.dbl(0, n); } }
  BLPoint pt() { double a = x(); return BLPoint(a, y()); }
  BLPointI pti() { return BLPointI(int(r.range(-W, 2 * W)), int(r.range(-H, 2 * H))); }
  BLRectI recti(int w, int h) { if (r.chance(1, 8)) return BLRectI(int(r.range(-5, w)), int(r.range(-5, h)), int(r.range(-1, w + 9)), int(r.range(-1, h + 9))); int a = int(r.below(w)), b = int(r.below(h)); return BLRectI(a, b, int(r.range(1, w - a)), int(r.range(1, h - b))); }
  BLRect rect() { if (r.chance(1, 3)) { BLRectI q = recti(W, H); return BLRect(q.x, q.y, q.w, q.h); } double a = x(), b = y(), c = size(W); return BLRect(a, b, c, size(H)); }
  BLRgba32 color() { return BLRgba32(r.chance(1, 4) ? r.u32() | 0xFF000000u : r.chance(1, 12) ? r.u32() & 0xFFFFFFu : r.u32()); }
  BLMatrix2D matrix() { BLMatrix2D m; m.reset(); int n = 1 + int(r.below(3)); for (int i = 0; i < n; i++) switch (r.below(6)) { case 0: m.translate(double(r.range(-8, 8)), double(r.range(-8, 8))); break; case 1: m.translate(r.dbl(-8, 8), r.dbl(-8, 8)); break; case 2: m.rotate(r.chance(1, 3) ? double(r.below(4)) * M_PI / 2 : r.dbl(-4, 4)); break; case 3: { double s = exp(r.dbl(-1, 1)); m.scale(s, r.chance(1, 2) ? s : exp(r.dbl(-1, 1))); break; } case 4: m.skew(r.dbl(-1, 1), r.dbl(-1, 1)); break; default: m.scale(r.chance(1, 2) ? -1 : 1, r.chance(1, 2) ? -1 : 1); m.translate(r.dbl(-W, W), r.dbl(-H, H)); } if (weird && r.chance(1, 10)) m.m[r.below(6)] = coord(W); return m; }
  BLPath path() {
    BLPath p; int n = 1 + int(r.below(r.chance(1, 6) ? 40 : 9)); bool has = false;
    for (int i = 0; i < n; i++) { int k = int(r.below(10)); if (!has || k == 0) { p.move_to(pt()); has = true; continue; }
      switch (k) { case 1: case 2: case 3: p.line_to(pt()); break; case 4: { BLPoint a = pt(); p.quad_to(a, pt()); break; } case 5: { BLPoint a = pt(), b = pt(); p.cubic_to(a, b, pt()); break; } case 6: p.close(); has = r.chance(1, 2) ? (p.move_to(pt()), true) : false; break;
        case 7: { BLRect q = rect(); p.add_rect(q, r.chance(1, 2) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW); has = false; break; } case 8: { BLPoint c = pt(); double a = size(W); p.add_ellipse(BLEllipse(c.x, c.y, a, size(H))); has = false; break; } default: { BLPoint c = pt(); double a = size(W / 2 + 1), b = size(H / 2 + 1), s = r.dbl(-7, 7); p.arc_to(c.x, c.y, a, b, s, r.dbl(-7, 7)); break; } } }
    return p;
  }
  const BLImage* image() { if (images.empty() || (images.size() < 6 && r.chance(1, 4))) { auto e = std::unique_ptr<Ext>(new Ext()); int w = 1 + int(r.skew(30)), h = 1 + int(r.skew(30)); e->create(r, w, h, rnd_format(r)); fill_random(r, *e); e->snapshot(); images.push_back(std::move(e)); } return &images[r.below(images.size())]->img; }
  Ext* image_ext(const BLImage* p) { for (auto& e : images) if (&e->img == p) return e.get(); return nullptr; }
  BLGradient gradient() {
    BLGradient g; BLPoint a = pt(), b = pt(); switch (r.below(3)) { case 0: g.create(BLLinearGradientValues(a.x, a.y, b.x, b.y)); break; case 1: g.create(BLRadialGradientValues(a.x, a.y, r.chance(1, 2) ? a.x : b.x, r.chance(1, 2) ? a.y : b.y, size(W), r.chance(1, 3) ? size(W) : 0)); break; default: g.create(BLConicGradientValues(a.x, a.y, r.dbl(-7, 7), r.chance(1, 2) ? 1.0 : r.dbl(0.1, 9))); }
    g.set_extend_mode(BLExtendMode(r.below(3))); int n = int(r.below(6)); for (int i = 0; i < n; i++) g.add_stop(r.chance(1, 3) ? double(r.below(3)) * 0.5 : r.unit(), color()); if (r.chance(1, 3)) g.apply_transform(matrix()); return g;
  }
  BLPattern pattern() { const BLImage* im = image(); BLPattern p(*im, BLExtendMode(r.below(9))); if (r.chance(1, 3)) { p.set_area(recti(im->width(), im->height())); } if (r.chance(1, 2)) { BLMatrix2D m; if (r.chance(1, 3)) { m.reset(); m.translate(r.chance(1, 2) ? double(r.range(-40, 40)) : r.dbl(-40, 40), r.chance(1, 2) ? double(r.range(-40, 40)) : r.dbl(-40, 40)); } else m = matrix(); p.set_transform(m); } return p; }
  BLVar style() { switch (r.below(6)) { case 0: return BLVar(gradient()); case 1: return BLVar(pattern()); case 2: return BLVar(BLRgba64(r.u64())); case 3: return BLVar(BLRgba(float(r.unit()), float(r.unit()), float(r.unit()), float(r.unit()))); default: return BLVar(color()); } }
  BLArray<double> dashes() { BLArray<double> a; int n = int(r.below(5)); for (int i = 0; i < n; i++) a.append(r.dbl(0.5, 9)); return a; }
  static std::string fmt(const char* f, ...) { char b[256]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

  Op state_op() {
    Op o; switch (r.below(20)) {
      case 0: { BLMatrix2D m = matrix(); o.d = fmt("set_transform(%g,%g,%g,%g,%g,%g)", m.m[0], m.m[1], m.m[2], m.m[3], m.m[4], m.m[5]); o.f = [m](BLContext& c) { return c.set_transform(m); }; break; }
      case 1: { BLMatrix2D m = matrix(); o.d = "apply_transform"; o.f = [m](BLContext& c) { return c.apply_transform(m); }; break; }
      case 2: { double a = r.dbl(-6, 6), b = r.dbl(-6, 6); if (r.chance(1, 2)) a = floor(a), b = floor(b); o.d = fmt("translate(%g,%g)", a, b); o.f = [a, b](BLContext& c) { return c.translate(a, b); }; break; }
      case 3: { o.d = "reset_transform"; o.f = [](BLContext& c) { return c.reset_transform(); }; break; }
      case 4: { double a = exp(r.dbl(-0.5, 0.5)); bool rot = r.chance(1, 2); o.d = fmt("scale/rotate %g", a); o.f = [a, rot](BLContext& c) { return rot ? c.post_rotate(a) : c.scale(a); }; break; }
      case 5: { if (!r.chance(1, 3)) return state_op(); o.d = "user_to_meta"; o.f = [](BLContext& c) { return c.user_to_meta(); }; break; }
      case 6: { BLCompOp op = r.chance(1, 3) ? BL_COMP_OP_SRC_COPY : other_ops && r.chance(1, 5) ? BLCompOp(r.below(BL_COMP_OP_MAX_VALUE + 1)) : BL_COMP_OP_SRC_OVER; o.d = fmt("comp_op %d", int(op)); o.f = [op](BLContext& c) { return c.set_comp_op(op); }; break; }
      case 7: { double a = r.chance(1, 2) ? 1.0 : r.unit(); o.d = fmt("global_alpha %g", a); o.f = [a](BLContext& c) { return c.set_global_alpha(a); }; break; }
      case 8: { double a = r.chance(1, 2) ? 1.0 : r.unit(); bool s = r.chance(1, 3); o.d = fmt("%s_alpha %g", s ? "stroke" : "fill", a); o.f = [a, s](BLContext& c) { return s ? c.set_stroke_alpha(a) : c.set_fill_alpha(a); }; break; }
      case 9: case 10: { auto v = std::make_shared<BLVar>(style()); bool s = r.chance(1, 3); o.d = fmt("%s style type %d", s ? "stroke" : "fill", int(v->type())); BLContextStyleTransformMode m = BLContextStyleTransformMode(r.below(3)); bool wm = r.chance(1, 3); o.f = [v, s, m, wm](BLContext& c) { BLContextStyleSlot k = s ? BL_CONTEXT_STYLE_SLOT_STROKE : BL_CONTEXT_STYLE_SLOT_FILL; return wm ? c.set_style(k, *v, m) : c.set_style(k, *v); }; break; }
      case 11: { BLFillRule f = BLFillRule(r.below(2)); o.d = fmt("fill_rule %d", int(f)); o.f = [f](BLContext& c) { return c.set_fill_rule(f); }; break; }
      case 12: { double w = r.chance(1, 8) ? 0 : size(12); o.d = fmt("stroke_width %g", w); o.f = [w](BLContext& c) { return c.set_stroke_width(w); }; break; }
      case 13: { BLStrokeJoin j = BLStrokeJoin(r.below(5)); BLStrokeCap a = BLStrokeCap(r.below(6)), b = BLStrokeCap(r.below(6)); double ml = r.dbl(0, 8); o.d = fmt("join %d caps %d %d miter %g", int(j), int(a), int(b), ml); o.f = [=](BLContext& c) { BLResult x = c.set_stroke_join(j); x |= c.set_stroke_start_cap(a); x |= c.set_stroke_end_cap(b); x |= c.set_stroke_miter_limit(ml); return x; }; break; }
      case 14: { auto d = std::make_shared<BLArray<double>>(dashes()); double off = r.dbl(-5, 5); BLStrokeTransformOrder to = BLStrokeTransformOrder(r.below(2)); o.d = "dash/order"; o.f = [d, off, to](BLContext& c) { BLResult x = c.set_stroke_dash_array(*d); x |= c.set_stroke_dash_offset(off); x |= c.set_stroke_transform_order(to); return x; }; break; }
      case 15: { BLPatternQuality p = BLPatternQuality(r.below(2)); BLGradientQuality g = BLGradientQuality(r.below(BL_GRADIENT_QUALITY_MAX_VALUE + 1)); o.d = fmt("quality %d %d", int(p), int(g)); o.f = [p, g](BLContext& c) { BLResult x = c.set_pattern_quality(p); x |= c.set_gradient_quality(g); return x; }; break; }
      case 16: { double t = exp(r.dbl(-4, 0)); o.d = fmt("flatten_tolerance %g", t); o.f = [t](BLContext& c) { return c.set_flatten_tolerance(t); }; break; }
      case 17: { bool alpha = r.chance(1, 2); o.d = "swap_styles"; o.f = [alpha](BLContext& c) { return c.swap_styles(alpha ? BL_CONTEXT_STYLE_SWAP_MODE_STYLES_WITH_ALPHA : BL_CONTEXT_STYLE_SWAP_MODE_STYLES); }; break; }
      case 18: { if (!clip_ops) return state_op(); int k = int(r.below(3)); BLRectI a = recti(W, H); BLRect b = rect(); o.d = k == 0 ? fmt("clip(%d,%d,%d,%d)", a.x, a.y, a.w, a.h) : k == 1 ? fmt("clip(%g,%g,%g,%g)", b.x, b.y, b.w, b.h) : "restore_clipping"; o.f = [=](BLContext& c) { return k == 0 ? c.clip_to_rect(a) : k == 1 ? c.clip_to_rect(b) : c.restore_clipping(); }; break; }
      default: { bool s = r.chance(1, 2); o.d = s ? "save" : "restore"; o.f = [s](BLContext& c) { return s ? c.save() : c.restore(); }; break; } }
    return o;
  }
  template<typename T> std::shared_ptr<T> sp(const T& v) { return std::make_shared<T>(v); }
  // Geometry of any type with the storage it refers to.
  struct Geo { BLGeometryType t; std::shared_ptr<void> data; std::shared_ptr<void> keep; std::string d; };
  template<typename V, typename E> Geo view(BLGeometryType t, std::vector<E> a) { auto k = std::make_shared<std::vector<E>>(std::move(a)); auto v = std::make_shared<V>(); v->data = k->data(); v->size = k->size(); std::string d = fmt("geometry %d n%zu", int(t), k->size()); if constexpr (sizeof(E) == 16) if (t == BL_GEOMETRY_TYPE_POLYLINED || t == BL_GEOMETRY_TYPE_POLYGOND) for (auto& e : *k) { double q[2]; memcpy(q, &e, 16); d += fmt(" %.17g,%.17g", q[0], q[1]); } return Geo{t, v, k, d}; }
  Geo geometry() {
    int t = 1 + int(r.below(21)); int n = int(r.skew(12)); auto mk = [&](auto v) { auto q = sp(v); return Geo{BLGeometryType(t), q, nullptr, fmt("geometry %d", t)}; };
    BLRect q = rect(); BLRectI qi = recti(W, H); BLPoint a = pt(), b = pt(), c = pt(); double rx = size(W), ry = r.chance(1, 3) ? rx : size(H), s = r.dbl(-7, 7), sw = r.dbl(-7, 7);
    switch (t) { case BL_GEOMETRY_TYPE_BOXI: return mk(BLBoxI(qi.x, qi.y, qi.x + qi.w, qi.y + qi.h)); case BL_GEOMETRY_TYPE_BOXD: return mk(BLBox(q.x, q.y, q.x + q.w, q.y + q.h)); case BL_GEOMETRY_TYPE_RECTI: return mk(qi); case BL_GEOMETRY_TYPE_RECTD: return mk(q); case BL_GEOMETRY_TYPE_CIRCLE: return mk(BLCircle(a.x, a.y, rx)); case BL_GEOMETRY_TYPE_ELLIPSE: return mk(BLEllipse(a.x, a.y, rx, ry)); case BL_GEOMETRY_TYPE_ROUND_RECT: return mk(BLRoundRect(q.x, q.y, q.w, q.h, size(8), size(8)));
      case BL_GEOMETRY_TYPE_ARC: case BL_GEOMETRY_TYPE_CHORD: case BL_GEOMETRY_TYPE_PIE: return mk(BLArc(a.x, a.y, rx, ry, s, sw)); case BL_GEOMETRY_TYPE_LINE: return mk(BLLine(a.x, a.y, b.x, b.y)); case BL_GEOMETRY_TYPE_TRIANGLE: return mk(BLTriangle(a.x, a.y, b.x, b.y, c.x, c.y));
      case BL_GEOMETRY_TYPE_POLYLINEI: case BL_GEOMETRY_TYPE_POLYGONI: { std::vector<BLPointI> v; for (int i = 0; i < n; i++) v.push_back(pti()); return view<BLArrayView<BLPointI>>(BLGeometryType(t), v); } case BL_GEOMETRY_TYPE_POLYLINED: case BL_GEOMETRY_TYPE_POLYGOND: { std::vector<BLPoint> v; for (int i = 0; i < n; i++) v.push_back(pt()); return view<BLArrayView<BLPoint>>(BLGeometryType(t), v); }
      case BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI: { std::vector<BLBoxI> v; for (int i = 0; i < n; i++) { BLRectI z = recti(W, H); v.push_back(BLBoxI(z.x, z.y, z.x + z.w, z.y + z.h)); } return view<BLArrayView<BLBoxI>>(BLGeometryType(t), v); } case BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXD: { std::vector<BLBox> v; for (int i = 0; i < n; i++) { BLRect z = rect(); v.push_back(BLBox(z.x, z.y, z.x + z.w, z.y + z.h)); } return view<BLArrayView<BLBox>>(BLGeometryType(t), v); }
      case BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTI: { std::vector<BLRectI> v; for (int i = 0; i < n; i++) v.push_back(recti(W, H)); return view<BLArrayView<BLRectI>>(BLGeometryType(t), v); } case BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD: { std::vector<BLRect> v; for (int i = 0; i < n; i++) v.push_back(rect()); return view<BLArrayView<BLRect>>(BLGeometryType(t), v); }
      default: { t = BL_GEOMETRY_TYPE_PATH; auto p = sp(path()); Geo g{BLGeometryType(t), p, nullptr, fmt("path %zu", p->size())}; return g; } }
  }
  Op draw_op() {
    Op o; o.draws = true; bool own = r.chance(1, 3); auto st = std::make_shared<BLVar>(own ? style() : BLVar());
    switch (r.below(14)) {
      case 0: { int k = int(r.below(4)); BLRectI a = recti(W, H); BLRect b = rect(); o.d = fmt("clear %d (%d,%d,%d,%d) (%g,%g,%g,%g)", k, a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h); bool all = k == 3 && r.chance(1, 3); o.f = [=](BLContext& c) { return all ? c.clear_all() : k & 1 ? c.clear_rect(a) : c.clear_rect(b); }; break; }
      case 1: { if (!r.chance(1, 3)) return draw_op(); o.d = fmt("fill_all own%d", own); o.f = [=](BLContext& c) { return own ? c.fill_all(*st) : c.fill_all(); }; break; }
      case 2: { BLRectI a = recti(W, H); BLRect b = rect(); bool i = r.chance(1, 2); o.d = i ? fmt("fill_rect_i(%d,%d,%d,%d)", a.x, a.y, a.w, a.h) : fmt("fill_rect(%g,%g,%g,%g)", b.x, b.y, b.w, b.h); o.f = [=](BLContext& c) { return i ? (own ? c.fill_rect(a, *st) : c.fill_rect(a)) : (own ? c.fill_rect(b, *st) : c.fill_rect(b)); }; break; }
      case 3: case 4: case 5: { Geo g = geometry(); o.d = "fill " + g.d; o.f = [=](BLContext& c) { return own ? c.fill_geometry(g.t, g.data.get(), *st) : c.fill_geometry(g.t, g.data.get()); }; break; }
      case 6: { Geo g = geometry(); o.d = "stroke " + g.d; o.f = [=](BLContext& c) { return own ? c.stroke_geometry(g.t, g.data.get(), *st) : c.stroke_geometry(g.t, g.data.get()); }; break; }
      case 7: { auto p = sp(path()); BLPoint at = pt(); bool s = r.chance(1, 3); o.d = fmt("%s path %zu at (%g,%g)", s ? "stroke" : "fill", p->size(), at.x, at.y); o.f = [=](BLContext& c) { return s ? (own ? c.stroke_path(at, *p, *st) : c.stroke_path(at, *p)) : (own ? c.fill_path(at, *p, *st) : c.fill_path(at, *p)); }; break; }
      case 8: case 9: { const BLImage* im = image(); BLRectI area = recti(im->width(), im->height()); bool ha = r.chance(1, 2), fr = r.chance(1, 3); BLPointI pi = pti(); BLPoint pd = r.chance(1, 3) ? BLPoint(pi.x, pi.y) : pt(); o.d = fmt("fill_mask fmt%d %dx%d at (%g,%g) area%d(%d,%d,%d,%d)", int(im->format()), im->width(), im->height(), fr ? pd.x : pi.x, fr ? pd.y : pi.y, ha, area.x, area.y, area.w, area.h); auto sh = sp(*im);
        o.f = [=](BLContext& c) { if (fr) return ha ? (own ? c.fill_mask(pd, *sh, area, *st) : c.fill_mask(pd, *sh, area)) : (own ? c.fill_mask(pd, *sh, *st) : c.fill_mask(pd, *sh)); return ha ? (own ? c.fill_mask(pi, *sh, area, *st) : c.fill_mask(pi, *sh, area)) : (own ? c.fill_mask(pi, *sh, *st) : c.fill_mask(pi, *sh)); }; break; }
      case 10: case 11: { const BLImage* im = image(); BLRectI area = recti(im->width(), im->height()); bool ha = r.chance(1, 2); int k = int(r.below(4)); BLPointI pi = pti(); BLPoint pd = pt(); BLRectI ri = recti(W, H); BLRect rd = rect(); auto sh = sp(*im); o.d = fmt("blit %d fmt%d %dx%d p(%d,%d)(%g,%g) r(%d,%d,%d,%d)(%g,%g,%g,%g) area%d(%d,%d,%d,%d)", k, int(im->format()), im->width(), im->height(), pi.x, pi.y, pd.x, pd.y, ri.x, ri.y, ri.w, ri.h, rd.x, rd.y, rd.w, rd.h, ha, area.x, area.y, area.w, area.h);
        o.f = [=](BLContext& c) { switch (k) { case 0: return ha ? c.blit_image(pi, *sh, area) : c.blit_image(pi, *sh); case 1: return ha ? c.blit_image(pd, *sh, area) : c.blit_image(pd, *sh); case 2: return ha ? c.blit_image(ri, *sh, area) : c.blit_image(ri, *sh); default: return ha ? c.blit_image(rd, *sh, area) : c.blit_image(rd, *sh); } }; break; }
      default: { if (fonts.empty()) return draw_op(); auto fo = sp(fonts[r.below(fonts.size())]); std::string s; int n = int(r.below(9)); static const char* words[] = {"a", "B", "\xC3\xA9", "fi", " ", "W", "q", ".", "AV", "0"}; for (int i = 0; i < n; i++) s += r.pick(words); bool stroke = r.chance(1, 4), di = r.chance(1, 2); BLPointI pi(int(r.range(-5, W)), int(r.range(-2, H + 5))); BLPoint pd = pt(); auto t = sp(s); o.d = fmt("%s text '%s' size %g", stroke ? "stroke" : "fill", s.c_str(), double(fo->size()));
        o.f = [=](BLContext& c) { if (stroke) return di ? c.stroke_utf8_text(pi, *fo, t->data(), t->size()) : c.stroke_utf8_text(pd, *fo, t->data(), t->size()); return di ? (own ? c.fill_utf8_text(pi, *fo, t->data(), t->size(), *st) : c.fill_utf8_text(pi, *fo, t->data(), t->size())) : (own ? c.fill_utf8_text(pd, *fo, t->data(), t->size(), *st) : c.fill_utf8_text(pd, *fo, t->data(), t->size())); }; break; } }
    return o;
  }
};

static std::vector<BLFontFace>& faces() { static std::vector<BLFontFace>* v = nullptr; if (!v) { v = new std::vector<BLFontFace>(); std::string dir = st().corpus; for (const char* f : {"/glyfTest.ttf", "/CFFTest.otf"}) { BLFontFace x; if (x.create_from_file((dir + f).c_str()) == BL_SUCCESS) v->push_back(x); } BLFontFace x; if (x.create_from_file("/repo/blend2d-testing/resources/ABeeZee-Regular.ttf") == BL_SUCCESS) v->push_back(x); VH_ASSUME(!v->empty()); } return *v; }
static void add_fonts(Gen& g) { for (auto& f : faces()) { BLFont x; if (x.create_from_face(f, float(g.r.dbl(3, 40))) == BL_SUCCESS) g.fonts.push_back(x); } }
} // scene
