// P24: coverage of filled shapes against exact area integration in double precision.
namespace p24 {
using Poly = std::vector<BLPoint>;

struct Cov {
  int w, h; double x0, y0, x1, y1; std::vector<double> A, C, L; double dil = 1.0 / 100;
  Cov(int w_, int h_, BLBox clip) : w(w_), h(h_), x0(clip.x0), y0(clip.y0), x1(clip.x1), y1(clip.y1), A(size_t(w) * h, 0.0), C(size_t(w + 1) * h, 0.0), L(size_t(w) * h, 0.0) {}
  static bool cut(double& ax, double& ay, double& bx, double& by, double lo, double hi) { // to lo <= y <= hi, order kept
    if (std::max(ay, by) < lo || std::min(ay, by) > hi) return false; double ox = ax, oy = ay, px = bx, py = by;
    auto at = [&](double y) { return ox + (px - ox) * ((y - oy) / (py - oy)); };
    if (oy < lo) { ax = at(lo); ay = lo; } else if (oy > hi) { ax = at(hi); ay = hi; } if (py < lo) { bx = at(lo); by = lo; } else if (py > hi) { bx = at(hi); by = hi; } return true;
  }
  void length(BLPoint p, BLPoint q) { // length of the edge near each pixel
    double ax = p.x, ay = p.y, bx = q.x, by = q.y; if (!cut(ax, ay, bx, by, -dil, h + dil)) return; if (!cut(ay, ax, by, bx, -dil, w + dil)) return;
    int r0 = std::max(0, int(floor(std::min(ay, by) - dil))), r1 = std::min(h - 1, int(floor(std::max(ay, by) + dil)));
    for (int r = r0; r <= r1; r++) { double cx = ax, cy = ay, dx = bx, dy = by; if (!cut(cx, cy, dx, dy, r - dil, r + 1 + dil)) continue; int c0 = std::max(0, int(floor(std::min(cx, dx) - dil))), c1 = std::min(w - 1, int(floor(std::max(cx, dx) + dil)));
      for (int c = c0; c <= c1; c++) { double ex = cx, ey = cy, fx = dx, fy = dy; if (!cut(ey, ex, fy, fx, c - dil, c + 1 + dil)) continue; L[size_t(r) * w + c] += hypot(fx - ex, fy - ey) + 0.02; } }
  }
  void line(BLPoint p, BLPoint q) {
    length(p, q); if (p.y == q.y) return; double ax = p.x, ay = p.y, bx = q.x, by = q.y; if (!cut(ax, ay, bx, by, y0, y1)) return; if (ay == by) return; double dir = ay < by ? 1 : -1; if (dir < 0) { std::swap(ax, bx); std::swap(ay, by); }
    int r0 = std::max(0, int(floor(ay))), r1 = std::min(h - 1, int(ceil(by)) - 1);
    for (int r = r0; r <= r1; r++) { double cx = ax, cy = ay, dx = bx, dy = by; if (!cut(cx, cy, dx, dy, r, r + 1) || cy == dy) continue; span(r, cx, cy, dx, dy, dir); }
  }
  double px0(int c) const { return std::max(double(c), x0); } double px1(int c) const { return std::min(double(c + 1), x1); }
  void span(int r, double cx, double cy, double dx, double dy, double dir) { // within one row, cy < dy
    double tot = dy - cy; if (cx > dx) std::swap(cx, dx); double len = dx - cx; int cf = std::min(w - 1, std::max(0, int(floor(x0))));
    auto part = [&](double a, double b) { return len > 0 ? tot * ((std::min(b, dx) - std::max(a, cx)) / len) : 0.0; };
    if (len == 0) { if (cx <= x0) C[size_t(r) * (w + 1) + cf] += dir * tot; else if (cx < x1) { int c = std::min(w - 1, int(floor(cx))); A[size_t(r) * w + c] += dir * tot * (px1(c) - cx); C[size_t(r) * (w + 1) + c + 1] += dir * tot; } return; }
    if (cx < x0) { C[size_t(r) * (w + 1) + cf] += dir * (dx <= x0 ? tot : part(cx, x0)); if (dx <= x0) return; }
    double a = std::max(cx, x0), b = std::min(dx, x1); if (a >= b) return; int c0 = std::min(w - 1, int(floor(a))), c1 = std::min(w - 1, int(ceil(b)) - 1);
    for (int c = c0; c <= c1; c++) { double u = std::max(a, double(c)), v = std::min(b, double(c + 1)); if (u >= v) continue; double d = dir * tot * ((v - u) / len); A[size_t(r) * w + c] += d * (px1(c) - (u + v) * 0.5); C[size_t(r) * (w + 1) + c + 1] += d; }
  }
  void finish() { for (int r = 0; r < h; r++) { double s = 0; for (int c = 0; c < w; c++) { s += C[size_t(r) * (w + 1) + c]; double pw = px1(c) - px0(c); if (pw > 0) A[size_t(r) * w + c] += s * pw; } } }
  void add(const Poly& p) { for (size_t i = 0; i < p.size(); i++) line(p[i], p[(i + 1) % p.size()]); }
};

struct Shape { std::vector<Poly> polys; bool curved = false; double slack = 0; };
static BLPoint map(const BLMatrix2D& m, BLPoint p) { return BLPoint(p.x * m.m00 + p.y * m.m10 + m.m20, p.x * m.m01 + p.y * m.m11 + m.m21); }

// Flattens a path in device space; the polygons are closed implicitly.
static Shape shape_of(const BLPath& p, const BLMatrix2D& m) {
  Shape s; Poly cur; const BLPoint* v = p.vertex_data(); const uint8_t* c = p.command_data(); size_t n = p.size(); auto done = [&]() { if (cur.size() > 1) s.polys.push_back(cur); cur.clear(); };
  for (size_t i = 0; i < n;) switch (c[i]) {
    case BL_PATH_CMD_MOVE: done(); cur.push_back(map(m, v[i])); i++; break; case BL_PATH_CMD_ON: cur.push_back(map(m, v[i])); i++; break;
    case BL_PATH_CMD_QUAD: { BLPoint a = cur.back(), b = map(m, v[i]), d = map(m, v[i + 1]); double e = hypot(a.x - 2 * b.x + d.x, a.y - 2 * b.y + d.y); int k = std::max(1, std::min(4000, int(ceil(sqrt(e / 4 / 0.001))))); for (int j = 1; j <= k; j++) { double t = double(j) / k, u = 1 - t; cur.push_back(j == k ? d : BLPoint(u * u * a.x + 2 * u * t * b.x + t * t * d.x, u * u * a.y + 2 * u * t * b.y + t * t * d.y)); } s.curved = true; i += 2; break; }
    case BL_PATH_CMD_CONIC: { BLPoint a = cur.back(), b = map(m, v[i]), d = map(m, v[i + 2]); double wt = v[i + 1].x; int k = 400; for (int j = 1; j <= k; j++) { double t = double(j) / k, u = 1 - t, A = u * u, B = 2 * u * t * wt, D = t * t, S = A + B + D; cur.push_back(j == k ? d : BLPoint((A * a.x + B * b.x + D * d.x) / S, (A * a.y + B * b.y + D * d.y) / S)); } s.curved = true; i += 3; break; }
    case BL_PATH_CMD_CUBIC: { BLPoint a = cur.back(), b = map(m, v[i]), d = map(m, v[i + 1]), f = map(m, v[i + 2]); double e = std::max(hypot(a.x - 2 * b.x + d.x, a.y - 2 * b.y + d.y), hypot(b.x - 2 * d.x + f.x, b.y - 2 * d.y + f.y)) * 6; int k = std::max(1, std::min(4000, int(ceil(sqrt(e / 8 / 0.001))))); for (int j = 1; j <= k; j++) { double t = double(j) / k, u = 1 - t; cur.push_back(j == k ? f : BLPoint(u * u * u * a.x + 3 * u * u * t * b.x + 3 * u * t * t * d.x + t * t * t * f.x, u * u * u * a.y + 3 * u * u * t * b.y + 3 * u * t * t * d.y + t * t * t * f.y)); } s.curved = true; i += 3; break; }
    default: { i++; break; } }
  done(); return s;
}
static void ring(Shape& s, const BLMatrix2D& m, double cx, double cy, double rx, double ry, double a0, double sweep, bool pie) { // exact elliptical arc
  Poly p; bool full = fabs(sweep) >= 2 * M_PI; if (full) sweep = 2 * M_PI; double R = std::max(fabs(rx), fabs(ry)) * std::max(hypot(m.m00, m.m01), hypot(m.m10, m.m11)); int k = std::max(8, std::min(4000, int(ceil(fabs(sweep) / sqrt(8 * 0.001 / std::max(R, 0.1)))))); if (pie && !full) p.push_back(map(m, BLPoint(cx, cy)));
  for (int j = 0; j <= k; j++) { double t = a0 + sweep * j / k; p.push_back(map(m, BLPoint(cx + rx * cos(t), cy + ry * sin(t)))); } s.polys.push_back(p); s.curved = true; s.slack = std::max(s.slack, R * 0.0003);
}
static Poly quad(const BLMatrix2D& m, double a, double b, double c, double d) { return Poly{map(m, BLPoint(a, b)), map(m, BLPoint(c, b)), map(m, BLPoint(c, d)), map(m, BLPoint(a, d))}; }
static double snap(Rng& r, double v) { return r.chance(1, 3) ? floor(v) : r.chance(1, 4) ? floor(v * 256) / 256 : v; }
} // p24

static void case_p24(Rng& r) {
  using namespace p24; bool big = r.chance(1, 40); int w = 1 + int(r.skew(big ? 1400 : 120)), h = 1 + int(r.skew(big ? 500 : 120)); static const BLFormat fm[] = {BL_FORMAT_PRGB32, BL_FORMAT_A8, BL_FORMAT_A8, BL_FORMAT_XRGB32}; BLFormat f = r.pick(fm);
  BLImage img; VH_OK(img.create(w, h, f), "image"); { BLImageData d; img.make_mutable(&d); for (int y = 0; y < h; y++) memset((uint8_t*)d.pixel_data + d.stride * y, 0, size_t(w) * bpp(f)); }
  double far = r.chance(1, 5) ? pow(10, r.dbl(3, r.chance(1, 2) ? 5 : 8)) : 0; int zoom = int(r.below(4)); double ox = r.dbl(0, w), oy = r.dbl(0, h), span = zoom == 0 ? r.dbl(0.3, 8) : std::max(w, h) * r.dbl(0.5, 3);
  auto co = [&](bool y) { double c = zoom == 0 ? (y ? oy : ox) : (y ? h : w) * 0.5; double v = c + r.dbl(-0.5, 0.5) * span; if (far && r.chance(1, 3)) v = r.dbl(-far, far); return snap(r, v); }; auto pt = [&]() { double a = co(false); return BLPoint(a, co(true)); };
  // Transform; geometry is given in user space such that it lands near the image.
  BLMatrix2D m; m.reset(); int tk = int(r.below(6)); bool swap = false; if (tk == 1) m.translate(double(r.range(-9, 9)), double(r.range(-9, 9))); else if (tk == 2) m.translate(r.dbl(-9, 9), r.dbl(-9, 9)); else if (tk == 3) { m.translate(w * 0.5, h * 0.5); m.scale(exp(r.dbl(-1, 1)) * (r.chance(1, 2) ? -1 : 1), exp(r.dbl(-1, 1)) * (r.chance(1, 2) ? -1 : 1)); if (r.chance(1, 3)) { m.rotate(M_PI / 2 * double(r.below(4))); swap = true; } m.translate(-w * 0.5, -h * 0.5); } else if (tk >= 4) { m.translate(w * 0.5, h * 0.5); m.rotate(r.dbl(-4, 4)); m.scale(exp(r.dbl(-1, 1))); m.skew(r.dbl(-0.7, 0.7), 0); m.translate(-w * 0.5, -h * 0.5); } (void)swap;
  BLMatrix2D u = m, meta; meta.reset(); bool use_meta = r.chance(1, 5); double ftol = r.chance(1, 3) ? 0.2 : exp(r.dbl(log(0.01), log(0.5))); bool evenodd = r.chance(1, 2);
  BLContextCreateInfo ci{}; ci.thread_count = r.chance(1, 8) ? 1 + unsigned(r.below(3)) : 0; BLContext c; VH_OK(c.begin(img, ci), "begin"); BLBox clip(0, 0, w, h);
  if (r.chance(1, 3)) { double a = snap(r, r.dbl(-2, w)), b = snap(r, r.dbl(-2, h)), d = snap(r, r.dbl(0, w)), e = snap(r, r.dbl(0, h)); a = floor(a * 256) / 256; b = floor(b * 256) / 256; d = floor(d * 256) / 256; e = floor(e * 256) / 256; if (r.chance(1, 2)) { a = floor(a); b = floor(b); d = ceil(d); e = ceil(e); } VH_OK(c.clip_to_rect(BLRect(a, b, d, e)), "clip"); clip = BLBox(std::max(0.0, a), std::max(0.0, b), std::min(double(w), a + d), std::min(double(h), b + e)); if (clip.x1 <= clip.x0 || clip.y1 <= clip.y0) clip = BLBox(0, 0, 0, 0); }
  VH_OK(c.set_fill_rule(evenodd ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO), "rule"); VH_OK(c.set_flatten_tolerance(ftol), "tolerance"); VH_OK(c.set_fill_style(BLRgba32(0xFFFFFFFF)), "style"); VH_OK(c.set_comp_op(r.chance(1, 4) ? BL_COMP_OP_SRC_COPY : BL_COMP_OP_SRC_OVER), "comp-op");
  if (use_meta) { VH_OK(c.set_transform(m), "transform"); VH_OK(c.user_to_meta(), "meta"); } else VH_OK(c.set_transform(m), "transform");
  Shape s; BLResult x = BL_SUCCESS; std::string d; int kind = int(r.below(25)); bool text = false, conic = false; BLPoint org(0, 0); double scale = std::max(hypot(m.m00, m.m01), hypot(m.m10, m.m11)); 
  auto boxpts = [&](double& a, double& b, double& cc, double& dd) { a = co(false); b = co(true); cc = co(false); dd = co(true); if (a > cc) std::swap(a, cc); if (b > dd) std::swap(b, dd); };
  double a, b, cc, dd;
  switch (kind) {
    case 0: { boxpts(a, b, cc, dd); x = c.fill_box(BLBox(a, b, cc, dd)); if (cc > a && dd > b) s.polys.push_back(quad(m, a, b, cc, dd)); d = Gen::fmt("fill_box(%.17g,%.17g,%.17g,%.17g)", a, b, cc, dd); break; }
    case 1: { boxpts(a, b, cc, dd); double ww = cc - a, hh = dd - b; x = c.fill_rect(BLRect(a, b, ww, hh)); if (ww > 0 && hh > 0) s.polys.push_back(quad(m, a, b, a + ww, b + hh)); d = Gen::fmt("fill_rect(%.17g,%.17g,%.17g,%.17g)", a, b, ww, hh); break; }
    case 2: { boxpts(a, b, cc, dd); BLBoxI q(int(floor(a)), int(floor(b)), int(ceil(cc)), int(ceil(dd))); bool rc = r.chance(1, 2); x = rc ? c.fill_rect(BLRectI(q.x0, q.y0, q.x1 - q.x0, q.y1 - q.y0)) : c.fill_geometry(BL_GEOMETRY_TYPE_BOXI, &q); if (q.x1 > q.x0 && q.y1 > q.y0) s.polys.push_back(quad(m, q.x0, q.y0, q.x1, q.y1)); d = Gen::fmt("fill box int(%d,%d,%d,%d)", q.x0, q.y0, q.x1, q.y1); break; }
    case 3: { BLPoint p = pt(), q = pt(), z = pt(); x = c.fill_triangle(BLTriangle(p.x, p.y, q.x, q.y, z.x, z.y)); s.polys.push_back({map(m, p), map(m, q), map(m, z)}); d = Gen::fmt("fill_triangle(%.17g,%.17g %.17g,%.17g %.17g,%.17g)", p.x, p.y, q.x, q.y, z.x, z.y); break; }
    case 4: case 5: { int n = int(r.skew(40)); bool line = r.chance(1, 3); Poly p; d = Gen::fmt("fill_poly%s", line ? "line" : "gon"); if (kind == 4) { std::vector<BLPoint> v; for (int i = 0; i < n; i++) { v.push_back(pt()); p.push_back(map(m, v.back())); d += Gen::fmt(" %.17g,%.17g", v.back().x, v.back().y); } BLArrayView<BLPoint> av{v.data(), v.size()}; x = line ? c.fill_geometry(BL_GEOMETRY_TYPE_POLYLINED, &av) : c.fill_polygon(av); } else { std::vector<BLPointI> v; for (int i = 0; i < n; i++) { BLPoint q = pt(); v.push_back(BLPointI(int(q.x), int(q.y))); p.push_back(map(m, BLPoint(v.back().x, v.back().y))); d += Gen::fmt(" %d,%d", v.back().x, v.back().y); } BLArrayView<BLPointI> av{v.data(), v.size()}; x = line ? c.fill_geometry(BL_GEOMETRY_TYPE_POLYLINEI, &av) : c.fill_polygon(av); } if (p.size() > 1) s.polys.push_back(p); break; }
    case 6: { BLPoint p = pt(); double R = r.dbl(0, span); x = c.fill_circle(p.x, p.y, R); if (R > 0) ring(s, m, p.x, p.y, R, R, 0, 7, false); d = Gen::fmt("fill_circle(%.17g,%.17g,%.17g)", p.x, p.y, R); break; }
    case 7: { BLPoint p = pt(); double R = r.dbl(0, span), Q = r.dbl(0, span); x = c.fill_ellipse(p.x, p.y, R, Q); if (R > 0 && Q > 0) ring(s, m, p.x, p.y, R, Q, 0, 7, false); d = Gen::fmt("fill_ellipse(%.17g,%.17g,%.17g,%.17g)", p.x, p.y, R, Q); break; }
    case 8: { boxpts(a, b, cc, dd); double rx = r.dbl(0, span * 0.4), ry = r.chance(1, 2) ? rx : r.dbl(0, span * 0.4), ww = cc - a, hh = dd - b; x = c.fill_round_rect(BLRoundRect(a, b, ww, hh, rx, ry)); d = Gen::fmt("fill_round_rect(%.17g,%.17g,%.17g,%.17g,%.17g,%.17g)", a, b, ww, hh, rx, ry);
      if (ww > 0 && hh > 0) { double ex = std::min(rx, ww / 2), ey = std::min(ry, hh / 2); Poly p; double RR = std::max(ex, ey) * scale; int k = std::max(4, std::min(2000, int(2 / sqrt(8 * 0.001 / std::max(RR, 0.1))))); auto corner = [&](double qx, double qy, double t0) { for (int j = 0; j <= k; j++) { double t = t0 + M_PI / 2 * j / k; p.push_back(map(m, BLPoint(qx + ex * cos(t), qy + ey * sin(t)))); } }; corner(a + ww - ex, b + hh - ey, 0); corner(a + ex, b + hh - ey, M_PI / 2); corner(a + ex, b + ey, M_PI); corner(a + ww - ex, b + ey, 3 * M_PI / 2); s.polys.push_back(p); s.curved = true; s.slack = RR * 0.0003; } break; }
    case 9: case 10: { BLPoint p = pt(); double R = r.dbl(0.01, span), Q = r.dbl(0.01, span), t = r.dbl(-7, 7), sw = r.chance(1, 12) ? r.dbl(6.3, 9) : r.dbl(-6.28, 6.28); BLArc arc(p.x, p.y, R, Q, t, sw); bool pie = kind == 10; int v = int(r.below(3)); x = pie ? c.fill_pie(arc) : v == 0 ? c.fill_geometry(BL_GEOMETRY_TYPE_ARC, &arc) : c.fill_chord(arc); ring(s, m, p.x, p.y, R, Q, t, sw, pie); d = Gen::fmt("fill %s(%.17g,%.17g,%.17g,%.17g,%.17g,%.17g)", pie ? "pie" : v == 0 ? "arc" : "chord", p.x, p.y, R, Q, t, sw); break; }
    case 11: case 12: { int n = int(r.skew(30)); bool rects = r.chance(1, 2); d = "fill box array"; if (kind == 11) { std::vector<BLBox> v; std::vector<BLRect> e; for (int i = 0; i < n; i++) { boxpts(a, b, cc, dd); v.push_back(BLBox(a, b, cc, dd)); e.push_back(BLRect(a, b, cc - a, dd - b)); if (rects ? cc - a > 0 && dd - b > 0 : cc > a && dd > b) s.polys.push_back(quad(m, a, b, cc, dd)); d += Gen::fmt(" (%.17g,%.17g,%.17g,%.17g)", a, b, cc, dd); } BLArrayView<BLBox> bv{v.data(), v.size()}; BLArrayView<BLRect> rv{e.data(), e.size()}; x = rects ? c.fill_rect_array(rv) : c.fill_box_array(bv); }
      else { std::vector<BLBoxI> v; std::vector<BLRectI> e; for (int i = 0; i < n; i++) { boxpts(a, b, cc, dd); BLBoxI q(int(floor(a)), int(floor(b)), int(ceil(cc)), int(ceil(dd))); v.push_back(q); e.push_back(BLRectI(q.x0, q.y0, q.x1 - q.x0, q.y1 - q.y0)); if (q.x1 > q.x0 && q.y1 > q.y0) s.polys.push_back(quad(m, q.x0, q.y0, q.x1, q.y1)); d += Gen::fmt(" (%d,%d,%d,%d)", q.x0, q.y0, q.x1, q.y1); } BLArrayView<BLBoxI> bv{v.data(), v.size()}; BLArrayView<BLRectI> rv{e.data(), e.size()}; x = rects ? c.fill_rect_array(rv) : c.fill_box_array(bv); } break; }
    case 13: { Gen g(r, w, h); add_fonts(g); BLFont fo = g.fonts[r.below(g.fonts.size())]; std::string t; int n = 1 + int(r.below(12)); static const char* words[] = {"a", "B", "fi", " ", "W", "q", "&", "AV", "0", "@", "e", "\xC3\xA9"}; for (int i = 0; i < n; i++) t += r.pick(words); BLPoint o = pt(); if (r.chance(1, 4)) o = BLPoint(floor(o.x), floor(o.y)); BLGlyphBuffer gb; gb.set_utf8_text(t.data(), t.size()); VH_OK(fo.shape(gb), "shape"); BLPath p; VH_OK(fo.get_glyph_run_outlines(gb.glyph_run(), BLMatrix2D(1, 0, 0, 1, o.x, o.y), p), "outlines"); bool run = r.chance(1, 2); x = run ? c.fill_glyph_run(o, fo, gb.glyph_run()) : c.fill_utf8_text(o, fo, t.data(), t.size()); s = shape_of(p, m); text = true; d = Gen::fmt("fill text '%s' size %g at (%.17g,%.17g)", t.c_str(), double(fo.size()), o.x, o.y); break; }
    case 14: case 15: { // polygons whose edges meet cell and scanline borders within a subpixel
      int n = 3 + int(r.below(5)); std::vector<BLPoint> v; Poly p; int px = int(r.range(-300, 256 * w + 300)), py = int(r.range(-300, 256 * h + 300)); d = "fill_polygon"; BLMatrix2D id; id.reset(); VH_OK(c.set_transform(id), "transform"); BLMatrix2D mi = use_meta ? m : id;
      for (int i = 0; i < n; i++) { v.push_back(BLPoint(px / 256.0, py / 256.0)); p.push_back(map(mi, v.back())); d += Gen::fmt(" %.17g,%.17g", v.back().x, v.back().y); int k = int(r.below(3)); if (k == 0) { px = int(r.range(-300, 256 * w + 300)); py = int(r.range(-300, 256 * h + 300)); } else if (k == 1) { px += int(r.range(-w, w)) * 256 + int(r.range(-2, 2)); py += int(r.range(-h, h)) * 256 + int(r.range(-2, 2)); } else { int q = int(r.range(-256 * h, 256 * h)); px += (r.chance(1, 2) ? q : -q) + int(r.range(-2, 2)); py += q; } }
      BLArrayView<BLPoint> av{v.data(), v.size()}; x = c.fill_polygon(av); s.polys.push_back(p); m = mi; break; }
    default: { BLPath p; int n = 1 + int(r.skew(30)); bool has = false, lines = r.chance(1, 2), fc = far > 1e5; for (int i = 0; i < n; i++) { int k = int(r.below(10)); if (!has || k == 0) { p.move_to(pt()); has = true; } else if (k == 1 && !lines && !fc && r.chance(1, 6)) { bool one = r.chance(1, 2); if (!one) conic = true; BLPoint q = pt(); BLPoint z = pt(); p.conic_to(q, z, one ? 1.0 : r.dbl(0.2, 4)); count("conics"); } else if (k == 1 || k == 2) { if (lines || fc) p.line_to(pt()); else { BLPoint q = pt(); p.quad_to(q, pt()); } } else if (k == 3 || k == 4) { if (lines || fc) p.line_to(pt()); else { BLPoint q = pt(), z = pt(); p.cubic_to(q, z, pt()); } } else if (k == 5) { p.close(); has = false; } else if (k == 6) { boxpts(a, b, cc, dd); p.add_box(a, b, cc, dd, r.chance(1, 2) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW); has = false; } else if (k == 7 && !lines && !fc) { BLPoint q = pt(); double z = r.dbl(-7, 7); p.arc_to(q.x, q.y, r.dbl(0.1, span), r.dbl(0.1, span), z, r.dbl(-6, 6)); } else p.line_to(pt()); }
      if (r.chance(1, 3)) { org = pt(); if (far) org = BLPoint(3.25, -2.5); x = c.fill_path(org, p); } else if (r.chance(1, 3)) x = c.fill_geometry(BL_GEOMETRY_TYPE_PATH, &p); else x = c.fill_path(p); BLMatrix2D mm = m; mm.translate(org); s = shape_of(p, mm); d = "fill_path"; if (st().verbose || p.size() < 12) for (size_t i = 0; i < p.size(); i++) d += Gen::fmt(" %d:%.17g,%.17g", p.command_data()[i], p.vertex_data()[i].x, p.vertex_data()[i].y); if (org.x || org.y) d += Gen::fmt(" at (%.17g,%.17g)", org.x, org.y); } }
  BLResult e = c.end(); if (text) evenodd = false;
  char ds[1500]; snprintf(ds, sizeof ds, "%s, %s, matrix (%.17g,%.17g,%.17g,%.17g,%.17g,%.17g)%s, clip (%g,%g)-(%g,%g), %dx%d format %d, tolerance %g, threads %u", d.substr(0, 900).c_str(), evenodd ? "even-odd" : "non-zero", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21, use_meta ? " (meta)" : "", clip.x0, clip.y0, clip.x1, clip.y1, w, h, int(f), ftol, ci.thread_count);
  if (st().verbose) { printf("case %llu: %s\n", (unsigned long long)g_case, ds); fflush(stdout); }
  VH_CHECK(x == BL_SUCCESS && e == BL_SUCCESS, "error", "%s returned %u / %u", ds, x, e);
  Hash hs; hs.add(kind).add(w).add(h).add(m).add(clip).add(evenodd); hs.add(d.data(), d.size()); if (!s.polys.empty()) hs.add(s.polys[0].data(), s.polys[0].size() * sizeof(BLPoint)); distinct(hs.h); sample("%s", ds); (void)u;
  Cov cv(w, h, clip); double maxc = 0; for (auto& p : s.polys) for (auto& q : p) maxc = std::max(maxc, std::max(fabs(q.x), fabs(q.y))); double shift = (s.curved ? ftol + s.slack + 0.002 : 0) + maxc * 4e-14; cv.dil = 0.006 + std::min(shift, 3.0); for (auto& p : s.polys) cv.add(p); if (clip.x1 > clip.x0) { BLPoint q[4] = {BLPoint(clip.x0, clip.y0), BLPoint(clip.x1, clip.y0), BLPoint(clip.x1, clip.y1), BLPoint(clip.x0, clip.y1)}; for (int i = 0; i < 4; i++) { bool fr = i & 1 ? q[i].x != floor(q[i].x) : q[i].y != floor(q[i].y); if (fr) cv.length(q[i], q[(i + 1) & 3]); } } cv.finish();
  BLImageData dt; img.get_data(&dt); uint64_t clear = 0, full = 0, part = 0; 
  for (int y = 0; y < h; y++) for (int xx = 0; xx < w; xx++) { const uint8_t* q = (const uint8_t*)dt.pixel_data + dt.stride * y + xx * bpp(f); int g; if (f == BL_FORMAT_A8) g = *q; else { uint32_t v; memcpy(&v, q, 4); g = int(v & 255); VH_CHECK((v >> 8 & 255) == uint32_t(g) && (v >> 16 & 255) == uint32_t(g) && (f == BL_FORMAT_XRGB32 || v >> 24 == uint32_t(g)), "channels", "%s: pixel (%d,%d) is %08X", ds, xx, y, v); }
    size_t i = size_t(y) * w + xx; double A = fabs(cv.A[i]), L = cv.L[i]; bool out = xx + 1 <= clip.x0 || xx >= clip.x1 || y + 1 <= clip.y0 || y >= clip.y1; double cov = 0; if (out) { A = 0; L = 0; } if (evenodd) { double t = fmod(A, 2.0); cov = t > 1 ? 2 - t : t; } else cov = std::min(A, 1.0);
    double tol = L > 0 ? 2.3 / 255 + L * (1.0 / 256 + shift) : 1e-6; double got = g / 255.0;
    if (L == 0) { if (cov < 1e-6) { VH_CHECK(g == 0, conic ? "fill-conic" : "outside", "%s: pixel (%d,%d) lies outside, it has coverage %d", ds, xx, y, g); clear++; continue; } if (cov > 1 - 1e-6) { VH_CHECK(g == 255, conic ? "fill-conic" : "inside", "%s: pixel (%d,%d) lies inside, it has coverage %d", ds, xx, y, g); full++; continue; } }
    VH_CHECK(fabs(got - cov) <= tol, conic ? "fill-conic" : "coverage", "%s: pixel (%d,%d) has coverage %d (%.4f), the shape covers %.4f of it (tolerance %.4f, edge length %.2f)", ds, xx, y, g, got, cov, tol, L); part++; }
  count("pixels outside", clear); count("pixels inside", full); count("partial pixels", part); evals(uint64_t(w) * h); if (s.curved) count("curved shapes"); if (far) count("far geometry"); if (text) count("texts"); if (part) count("shapes with edges");
}
