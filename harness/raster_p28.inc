// P28: the outline of a stroke against the sweep of the pen (point membership), and stroking by the context against it.
namespace p28 {
struct Seg { BLPoint a, b, d; double len; bool curve = false, tight = false; }; // d: unit direction
struct Join { BLPoint v, d0, d1; int kind; }; // kind 1: between two segments of the path, 0: inside a curve
struct Fig { std::vector<Seg> segs; std::vector<Join> joins; bool closed = false; BLPoint ds, de; std::vector<std::array<BLPoint, 3>> inner; };
static BLPoint sub(BLPoint a, BLPoint b) { return BLPoint(a.x - b.x, a.y - b.y); } static double dot(BLPoint a, BLPoint b) { return a.x * b.x + a.y * b.y; } static double crs(BLPoint a, BLPoint b) { return a.x * b.y - a.y * b.x; } static BLPoint unit(BLPoint a) { double l = hypot(a.x, a.y); return l > 0 ? BLPoint(a.x / l, a.y / l) : BLPoint(0, 0); } static BLPoint mad(BLPoint a, BLPoint d, double k) { return BLPoint(a.x + d.x * k, a.y + d.y * k); }
struct Builder { Fig f; BLPoint cur, start; bool any = false; BLPoint last;
  void piece(BLPoint b, int kind, BLPoint d) { BLPoint a = f.segs.empty() ? cur : f.segs.back().b; double l = hypot(b.x - a.x, b.y - a.y); if (l < (kind ? 1e-9 : 1e-4)) return; BLPoint u = unit(sub(b, a)); if (!f.segs.empty()) f.joins.push_back({a, kind ? last : f.segs.back().d, kind ? d : u, kind}); else f.ds = d; f.segs.push_back({a, b, u, l}); last = u; }
  // Marks pieces of curves that turn so much that the offset at the inner side isn't regular.
  void mark(double hw) { for (size_t i = 0; i + 1 < f.segs.size(); i++) if (f.joins[i].kind == 0) { auto &s = f.segs[i], &t = f.segs[i + 1]; double a = fabs(atan2(crs(s.d, t.d), dot(s.d, t.d))); if (a * hw * 1.5 > (s.len + t.len) / 2) s.tight = t.tight = true; } if (f.segs.empty()) return; for (size_t i = 0; i < f.joins.size(); i++) if (f.joins[i].kind) { auto &s = f.segs[i], &t = f.segs[i + 1]; if (dot(s.d, f.joins[i].d0) < 0.98) s.tight = true; if (dot(t.d, f.joins[i].d1) < 0.98) t.tight = true; } if (dot(f.segs[0].d, f.ds) < 0.98) f.segs[0].tight = true; if (dot(f.segs.back().d, last) < 0.98) f.segs.back().tight = true; }
  // Inner corners of joins that have a neighbor shorter than the radius of the pen - their winding can cancel other parts.
  void corners(double hw) { size_t n = f.segs.size(); for (size_t q = 0; q < f.joins.size(); q++) { auto& j = f.joins[q]; if (!j.kind) continue; bool w = f.closed && q + 1 == f.joins.size(); auto &s = f.segs[w ? n - 1 : q], &t = f.segs[w ? 0 : q + 1]; if (s.len > hw * 1.001 && t.len > hw * 1.001) continue; double sd = crs(j.d0, j.d1) < 0 ? -1 : 1; f.inner.push_back({j.v, BLPoint(j.v.x - j.d0.y * sd * hw, j.v.y + j.d0.x * sd * hw), BLPoint(j.v.x - j.d1.y * sd * hw, j.v.y + j.d1.x * sd * hw)}); } }
  void line(BLPoint b) { BLPoint d = unit(sub(b, cur)); size_t c = f.segs.size(); piece(b, 1, d); if (f.segs.size() > c) last = d; cur = b; }
  void curve(const BLPoint* p, int n, int N) { // p[0] = cur
    auto at = [&](double t) { double s = 1 - t; return n == 2 ? BLPoint(s * s * p[0].x + 2 * s * t * p[1].x + t * t * p[2].x, s * s * p[0].y + 2 * s * t * p[1].y + t * t * p[2].y) : BLPoint(s * s * s * p[0].x + 3 * s * s * t * p[1].x + 3 * s * t * t * p[2].x + t * t * t * p[3].x, s * s * s * p[0].y + 3 * s * s * t * p[1].y + 3 * s * t * t * p[2].y + t * t * t * p[3].y); };
    int i = 1; while (i < n && p[i] == p[0]) i++; BLPoint d0 = unit(sub(p[i], p[0])); i = n - 1; while (i > 0 && p[i] == p[n]) i--; BLPoint d1 = unit(sub(p[n], p[i])); bool first = true;
    std::vector<double> ts; for (int k = 1; k <= N; k++) ts.push_back(double(k) / N); for (double z = 0.5 / N; z > 1e-6; z /= 4) ts.push_back(z), ts.push_back(1 - z); { auto sp = [&](double t) { BLPoint u = at(t - 1e-5), v = at(t + 1e-5); return hypot(v.x - u.x, v.y - u.y); }; for (int k = 0; k < N; k++) { double t = (k + 0.5) / N; if (sp(t) > sp(t - 1.0 / N) || sp(t) > sp(t + 1.0 / N)) continue; double a = t - 1.0 / N, b = t + 1.0 / N; for (int z = 0; z < 60; z++) { double m0 = a + (b - a) * 0.382, m1 = a + (b - a) * 0.618; if (sp(m0) < sp(m1)) b = m1; else a = m0; } double m = (a + b) / 2; for (double z = 0.25 / N; z > 1e-6; z /= 4) ts.push_back(m - z), ts.push_back(m + z); ts.push_back(m); } } std::sort(ts.begin(), ts.end());
    for (double tt : ts) { if (!(tt > 0) || tt > 1) continue; size_t c = f.segs.size(); piece(tt == 1 ? p[n] : at(tt), first ? 1 : 0, d0); if (f.segs.size() > c) first = false; } if (!first) { last = d1; auto& z = f.segs.back(); z.b = p[n]; z.len = hypot(z.b.x - z.a.x, z.b.y - z.a.y); z.d = unit(sub(z.b, z.a)); } cur = p[n]; }
};
static double clampd(double v) { return std::max(-1.0, std::min(1.0, v)); }
// Tells whether the pen covers a point; e > 0 enlarges the shape, e < 0 makes it smaller.
static bool in_conv(const BLPoint* q, int n, BLPoint p, double e) { double area = 0; for (int i = 0; i < n; i++) area += crs(q[i], q[(i + 1) % n]); double s = area < 0 ? -1 : 1; if (area == 0 && e <= 0) return false; for (int i = 0; i < n; i++) { BLPoint a = q[i], b = q[(i + 1) % n], u = unit(sub(b, a)); if (u.x == 0 && u.y == 0) continue; if (s * crs(u, sub(p, a)) < -e) return false; } return true; }
static bool in_join(const Join& j, BLPoint p, double hw, int type, double limit, double e, bool must) {
  BLPoint w = sub(p, j.v); double dist = hypot(w.x, w.y), c = crs(j.d0, j.d1), cs = clampd(dot(j.d0, j.d1)); auto round = [&]() { return dist <= hw + e && dot(w, j.d0) >= -std::max(e, 0.0) && dot(w, j.d1) <= std::max(e, 0.0); };
  if (j.kind == 0 || type == BL_STROKE_JOIN_ROUND) { if (!must) return round(); if (cs < -0.9999999) return false; double sd = c < 0 ? 1 : -1; BLPoint n0(-j.d0.y * sd, j.d0.x * sd), n1(-j.d1.y * sd, j.d1.x * sd); return round() && dot(w, n0) >= 0 && dot(w, n1) >= 0; }
  double side = c < 0 ? 1 : -1; BLPoint n0(-j.d0.y * side, j.d0.x * side), n1(-j.d1.y * side, j.d1.x * side), pa = mad(j.v, n0, hw), pb = mad(j.v, n1, hw); double half2 = (1 + cs) / 2; // cos^2 of half of the turn
  double mk = half2 > 0 ? hw / sqrt(half2) : INFINITY, lim = hw * limit; bool unsure = fabs(mk - lim) < 1e-6 * mk || (cs < -0.9999999 && true); BLPoint tri[3] = {j.v, pa, pb}; bool bevel = in_conv(tri, 3, p, e), full = false; if (std::isfinite(mk)) { double k = hw * sqrt(std::max(0.0, 1 - half2)) / sqrt(half2); BLPoint q[4] = {j.v, pa, mad(pa, j.d0, k), pb}; full = in_conv(q, 4, p, e); }
  if (cs < -0.9999999) { if (must) return false; if (type == BL_STROKE_JOIN_MITER_CLIP) { return dot(w, j.d0) >= -e && dot(w, j.d0) <= lim + e && fabs(crs(w, j.d0)) <= hw + e; } if (type == BL_STROKE_JOIN_MITER_ROUND) return round(); return mk <= lim * 1.0001 ? round() || full || dist < lim + e : bevel || (dot(w, j.d0) <= e && dist <= hw + e); }
  switch (type) { case BL_STROKE_JOIN_BEVEL: return bevel; case BL_STROKE_JOIN_MITER_BEVEL: if (must && unsure) return bevel; return (mk <= lim || unsure) ? full : bevel; case BL_STROKE_JOIN_MITER_ROUND: if (must && unsure) return bevel; return mk <= lim ? full : unsure ? full || round() : must ? round() && crs(j.d0, j.d1) != 0 && dot(w, n0) >= 0 && dot(w, n1) >= 0 : round(); default: break; }
  if (mk <= lim) return full; if (must && unsure) return bevel; BLPoint bis = unit(BLPoint(n0.x + n1.x, n0.y + n1.y)); double proj = hw * sqrt(half2), along = dot(w, bis); if (must) return bevel || (full && along <= lim + e); double mx = lim >= proj ? proj + (mk > 0 && std::isfinite(mk) ? lim / mk * (mk - proj) : lim) : proj + lim; return full && along <= mx + e;
}
static bool in_cap(BLPoint v, BLPoint d, BLPoint p, double hw, int type, double e) { // d points outwards
  BLPoint w = sub(p, v); double s = dot(w, d), t = fabs(crs(d, w)); if (s < -std::max(e, 0.0)) return false;
  switch (type) { case BL_STROKE_CAP_SQUARE: return s <= hw + e && t <= hw + e; case BL_STROKE_CAP_ROUND: return hypot(s, t) <= hw + e; case BL_STROKE_CAP_ROUND_REV: return s <= hw + e && t <= hw + e && hypot(s - hw, t) >= hw - e; case BL_STROKE_CAP_TRIANGLE: return (s + t - hw) / M_SQRT2 <= e; case BL_STROKE_CAP_TRIANGLE_REV: return s <= hw + e && t <= hw + e && (s - t) / M_SQRT2 <= e; default: return e > 0 && s <= e && t <= hw + e; }
}
static bool near_tight(const std::vector<Fig>& figs, BLPoint p, double r) { for (auto& f : figs) for (auto& s : f.segs) if (s.tight) { BLPoint w = sub(p, s.a); double x = dot(w, s.d), y = crs(s.d, w); x = x < 0 ? x : x > s.len ? x - s.len : 0; if (x * x + y * y < r * r) return true; } return false; }
static bool at_cap(const std::vector<Fig>& figs, BLPoint p, double hw, double e) { for (auto& f : figs) { if (f.segs.empty()) continue; BLPoint w = sub(p, f.segs[0].a), z = sub(p, f.segs.back().b); if (fabs(dot(w, f.ds)) <= e && hypot(w.x, w.y) <= hw + 2 * e) return true; if (fabs(dot(z, f.de)) <= e && hypot(z.x, z.y) <= hw + 2 * e) return true; } return false; }
static bool in_inner(const std::vector<Fig>& figs, BLPoint p, double e) { for (auto& f : figs) for (auto& t : f.inner) if (in_conv(t.data(), 3, p, e)) return true; return false; }
static bool covers(const std::vector<Fig>& figs, BLPoint p, double hw, const BLStrokeOptions& o, double e, bool must) {
  for (auto& f : figs) {
    for (size_t i = 0; i < f.segs.size(); i++) { auto& s = f.segs[i]; BLPoint w = sub(p, s.a); double x = dot(w, s.d), y = fabs(crs(s.d, w)); if (y > hw + e) continue; double lo = 0, hi = s.len; if (!must) lo -= e, hi += e; else { bool cp = i > 0 && f.joins[i - 1].kind == 0, cn = i + 1 < f.segs.size() && f.joins[i].kind == 0; if (!cp) lo -= e; if (!cn) hi += e; } if (x < lo || x > hi) continue;
      // The outline cuts the corner of a band on the inner side of a join when the other segment is shorter than the pen's radius.
      if (must) { double sy = crs(s.d, w); bool cut = false; for (size_t q = 0; q < f.joins.size() && !cut; q++) { auto& j = f.joins[q]; if (!j.kind) continue; bool at_end = q == i, at_start = q + 1 == i || (f.closed && i == 0 && q + 1 == f.joins.size()); if (f.closed && i + 1 == f.segs.size() && q + 1 == f.joins.size()) at_end = true; if (!at_end && !at_start) continue; double ol = f.segs[at_start ? (i + f.segs.size() - 1) % f.segs.size() : (i + 1) % f.segs.size()].len, z = at_start ? x : s.len - x; if (ol < hw * 1.001 && z < hw * 1.001 && sy * crs(j.d0, j.d1) > 0) cut = true; } if (cut) continue; }
      return true; }
    for (auto& j : f.joins) { if (fabs(p.x - j.v.x) > hw * (o.miter_limit + 2) + 2 && j.kind) continue; if (in_join(j, p, hw, o.join, o.miter_limit, e, must)) return true; }
    if (!f.closed && !f.segs.empty()) { if (in_cap(f.segs[0].a, BLPoint(-f.ds.x, -f.ds.y), p, hw, o.start_cap, e) || in_cap(f.segs.back().b, f.de, p, hw, o.end_cap, e)) return true; }
  }
  return false;
}
struct Edges { std::vector<BLPoint> a, b; void line(BLPoint p, BLPoint q) { a.push_back(p); b.push_back(q); } };
static void flatten(const BLPath& p, Edges& o) { BLPathView v = p.view(); BLPoint cur, st; bool open = false; for (size_t i = 0; i < v.size;) { switch (v.command_data[i]) { case BL_PATH_CMD_MOVE: if (open) o.line(cur, st); cur = st = v.vertex_data[i++]; open = true; break; case BL_PATH_CMD_ON: o.line(cur, v.vertex_data[i]); cur = v.vertex_data[i++]; break; case BL_PATH_CMD_CLOSE: o.line(cur, st); cur = st; open = false; i++; break;
      default: { int n = v.command_data[i] == BL_PATH_CMD_QUAD ? 2 : 3; BLPoint q[4] = {cur, v.vertex_data[i], v.vertex_data[i + 1], n == 3 ? v.vertex_data[i + 2] : BLPoint()}; int N = 20; BLPoint l = cur; for (int k = 1; k <= N; k++) { double t = double(k) / N, s = 1 - t; BLPoint c = n == 2 ? BLPoint(s * s * q[0].x + 2 * s * t * q[1].x + t * t * q[2].x, s * s * q[0].y + 2 * s * t * q[1].y + t * t * q[2].y) : BLPoint(s * s * s * q[0].x + 3 * s * s * t * q[1].x + 3 * s * t * t * q[2].x + t * t * t * q[3].x, s * s * s * q[0].y + 3 * s * s * t * q[1].y + 3 * s * t * t * q[2].y + t * t * t * q[3].y); o.line(l, c); l = c; } cur = q[n]; i += size_t(n); } } } if (open) o.line(cur, st); }
static int winding(const Edges& e, BLPoint p) { int w = 0; for (size_t i = 0; i < e.a.size(); i++) { const BLPoint &a = e.a[i], &b = e.b[i]; if ((a.y <= p.y) == (b.y <= p.y)) continue; double x = a.x + (b.x - a.x) * ((p.y - a.y) / (b.y - a.y)); if (x > p.x) w += b.y > a.y ? 1 : -1; } return w; }
static std::string text(const BLPath& p) { std::string s; BLPathView v = p.view(); for (size_t i = 0; i < v.size && s.size() < 20000; i++) s += v.command_data[i] == BL_PATH_CMD_CLOSE ? std::string(" Z") : Gen::fmt(" %c%.9g,%.9g", v.command_data[i] == BL_PATH_CMD_MOVE ? 'M' : v.command_data[i] == BL_PATH_CMD_ON ? 'L' : v.command_data[i] == BL_PATH_CMD_QUAD ? 'Q' : 'C', v.vertex_data[i].x, v.vertex_data[i].y); return s; }
}
// Stroking by the rendering context against filling the stroked outline.
static void case_p28_context(Rng& r) {
  using namespace p28; int W = 48, H = 40; BLMatrix2D m; m.reset(); if (r.chance(2, 3)) { if (r.chance(1, 2)) m.rotate(r.dbl(-3, 3), BLPoint(24, 20)); if (r.chance(1, 2)) m.scale(r.dbl(0.3, 2), r.dbl(0.3, 2)); if (r.chance(1, 3)) m.translate(r.dbl(-10, 10), r.dbl(-10, 10)); if (r.chance(1, 6)) m.skew(r.dbl(-0.5, 0.5), 0); }
  bool before = r.chance(1, 2); auto rp = [&]() { return BLPoint(r.dbl(-4, 52), r.dbl(-4, 44)); }; int kind = int(r.below(9)); BLPath path; BLPoint pts[6]; size_t np = 2 + r.below(5); for (auto& q : pts) q = rp(); BLRect rc(pts[0].x, pts[0].y, r.dbl(1, 40), r.dbl(1, 30)); double rx = r.dbl(1, 20), ry = r.dbl(1, 20), a0 = r.dbl(-7, 7), a1 = r.dbl(-6.2, 6.2); BLArc arc(pts[0].x, pts[0].y, rx, ry, a0, a1); static const char* KN[] = {"path", "rect", "line", "polyline", "polygon", "round rect", "ellipse", "arc", "triangle"};
  switch (kind) { case 0: { path.move_to(pts[0]); size_t n = 1 + r.below(4); for (size_t i = 0; i < n; i++) { if (r.chance(1, 2)) path.line_to(rp()); else if (r.chance(1, 2)) path.quad_to(rp(), rp()); else path.cubic_to(rp(), rp(), rp()); } if (r.chance(1, 3)) path.close(); if (r.chance(1, 4)) { path.move_to(rp()); path.line_to(rp()); path.line_to(rp()); } break; }
    case 1: path.add_rect(rc); break; case 2: path.move_to(pts[0]); path.line_to(pts[1]); break; case 3: path.add_polyline(BLArrayView<BLPoint>{pts, np}); break; case 4: path.add_polygon(BLArrayView<BLPoint>{pts, np}); break; case 5: path.add_round_rect(BLRoundRect(rc.x, rc.y, rc.w, rc.h, rx / 2, ry / 2)); break; case 6: path.add_ellipse(BLEllipse(pts[0].x, pts[0].y, rx, ry)); break; case 7: path.add_arc(arc); break; default: path.add_triangle(BLTriangle(pts[0].x, pts[0].y, pts[1].x, pts[1].y, pts[2].x, pts[2].y)); break; }
  BLStrokeOptions o; o.width = r.chance(1, 3) ? r.dbl(0.5, 2) : r.dbl(1, 12); o.join = uint8_t(r.below(5)); o.start_cap = uint8_t(r.below(6)); o.end_cap = uint8_t(r.below(6)); o.miter_limit = r.dbl(1, 6); o.transform_order = before; BLPath src(path); BLMatrix2D m0(m); m0.m20 = m0.m21 = 0; if (before) src.transform(m0); BLPath out; { BLResult z = out.add_stroked_path(src, o, bl_default_approximation_options); VH_CHECK(!z, "error", "stroke: %u", z); } if (!before) out.transform(m); else out.translate(BLPoint(m.m20, m.m21)); // The same arithmetic as of the context - rounding decides how inner corners look like.
 
  BLImage ia(W, H, BL_FORMAT_A8), ib(W, H, BL_FORMAT_A8); { BLContext c(ia); c.clear_all(); c.set_fill_rule(BL_FILL_RULE_NON_ZERO); c.set_fill_style(BLRgba32(0xFFFFFFFFu)); c.fill_path(out); c.end(); }
  BLContextCreateInfo ci{}; if (r.chance(1, 6)) ci.thread_count = uint32_t(r.range(1, 3)); { BLContext c; c.begin(ib, ci); c.clear_all(); c.set_stroke_style(BLRgba32(0xFFFFFFFFu)); c.set_stroke_options(o); c.apply_transform(m); if (r.chance(1, 4)) c.set_fill_rule(BL_FILL_RULE_EVEN_ODD); BLResult x = 0; switch (kind) { case 1: x = c.stroke_rect(rc); break; case 2: x = c.stroke_line(pts[0], pts[1]); break; case 3: x = c.stroke_polyline(pts, np); break; case 4: x = c.stroke_polygon(pts, np); break; case 5: x = c.stroke_round_rect(BLRoundRect(rc.x, rc.y, rc.w, rc.h, rx / 2, ry / 2)); break; case 6: x = c.stroke_ellipse(BLEllipse(pts[0].x, pts[0].y, rx, ry)); break; case 7: x = c.stroke_arc(arc); break; case 8: x = c.stroke_triangle(BLTriangle(pts[0].x, pts[0].y, pts[1].x, pts[1].y, pts[2].x, pts[2].y)); break; default: if (r.chance(1, 3)) { BLPoint og(r.dbl(-3, 3), r.dbl(-3, 3)); BLPath q(path); q.translate(BLPoint(-og.x, -og.y)); x = c.stroke_path(og, q); } else x = c.stroke_path(path); } VH_CHECK(!x, "error", "stroke by a context: %u", x); c.end(); }
  BLImageData da, db; ia.get_data(&da); ib.get_data(&db); uint64_t n = 0, set = 0; for (int y = 0; y < H; y++) for (int i = 0; i < W; i++) { int va = ((uint8_t*)da.pixel_data)[y * da.stride + i], vb = ((uint8_t*)db.pixel_data)[y * db.stride + i]; n++; if (va) set++; VH_CHECK(abs(va - vb) <= 6, "context", "stroking a %s (%s) of width %g join %d caps %d %d transform [%g %g %g %g %g %g] %s: pixel (%d,%d) is %d, but filling the outline makes it %d", KN[kind], text(path).c_str(), o.width, o.join, o.start_cap, o.end_cap, m.m00, m.m01, m.m10, m.m11, m.m20, m.m21, before ? "before" : "after", i, y, vb, va); }
  evals(n); count("pixels stroked by a context", set); count(KN[kind]); count(before ? "transform before" : "transform after");
}
static void case_p28(Rng& r) { if (r.chance(1, 5)) { case_p28_context(r); return; }
  using namespace p28; BLPath path; std::vector<Fig> figs; double S = r.chance(1, 3) ? 30 : 120, hw = r.chance(1, 3) ? r.dbl(0.3, 3) : r.dbl(1, 25); int grid = r.chance(1, 2) ? 1 : 0, curves = 0, cusps = 0; auto rp = [&]() { BLPoint p(r.dbl(0, S), r.dbl(0, S)); if (grid) { p.x = floor(p.x / 8) * 8; p.y = floor(p.y / 8) * 8; } return p; }; bool lines_only = r.chance(1, 2), gentle = r.chance(1, 2); int nf = r.chance(1, 4) ? 2 : 1;
  for (int i = 0; i < nf; i++) { Builder b; b.cur = b.start = rp(); path.move_to(b.cur); int n = 1 + int(r.skew(7)); std::vector<int> cv;
    for (int k = 0; k < n; k++) { int kind = lines_only ? 0 : int(r.below(4)); BLPoint q[4] = {b.cur, rp(), rp(), rp()}; if (r.chance(1, 12) && k) q[1] = b.start; if (kind <= 1) { if (r.chance(1, 10)) q[1] = mad(b.cur, unit(sub(q[1], b.cur)), r.dbl(0.01, 1)); if (hypot(q[1].x - b.cur.x, q[1].y - b.cur.y) < 1e-6) { if (r.chance(1, 2)) path.line_to(q[1]), b.cur = q[1]; continue; } path.line_to(q[1]); b.line(q[1]); }
      else if (kind == 2) { if (gentle) { q[2] = mad(b.cur, unit(sub(q[2], b.cur)), hw * r.dbl(2, 6)); BLPoint m((b.cur.x + q[2].x) / 2, (b.cur.y + q[2].y) / 2); double h = r.dbl(-0.3, 0.3); q[1] = BLPoint(m.x - (q[2].y - b.cur.y) * h, m.y + (q[2].x - b.cur.x) * h); } else if (r.chance(1, 8)) { double t = r.dbl(-1, 2); q[1] = BLPoint(b.cur.x + (q[2].x - b.cur.x) * t, b.cur.y + (q[2].y - b.cur.y) * t); } if (hypot(q[1].x - q[0].x, q[1].y - q[0].y) + hypot(q[2].x - q[1].x, q[2].y - q[1].y) < 1e-6) continue; path.quad_to(q[1], q[2]); b.curve(q, 2, 160); curves++; }
      else { if (gentle) { q[3] = mad(b.cur, unit(sub(q[3], b.cur)), hw * r.dbl(3, 8)); BLPoint d = sub(q[3], b.cur); double h = r.dbl(-0.3, 0.3), g = r.chance(1, 2) ? h : r.dbl(-0.2, 0.2); q[1] = BLPoint(b.cur.x + d.x / 3 - d.y * h, b.cur.y + d.y / 3 + d.x * h); q[2] = BLPoint(b.cur.x + d.x * 2 / 3 - d.y * g, b.cur.y + d.y * 2 / 3 + d.x * g); }
        else if (r.chance(1, 4)) { double t0 = r.range(1, 7) / 8.0; BLPoint u(double(r.range(-9, 9)) * 8, double(r.range(-9, 9)) * 8), v(double(r.range(-9, 9)) * 8, double(r.range(-9, 9)) * 8); BLPoint d0(-t0 * u.x, -t0 * u.y), d1((u.x - t0 * v.x) / 2, (u.y - t0 * v.y) / 2), d2(u.x - t0 * v.x + v.x, u.y - t0 * v.y + v.y); d2 = BLPoint((1 - t0) * (u.x + v.x), (1 - t0) * (u.y + v.y)); BLPoint c0 = d0, c2 = d2, c1((u.x * (1 - 2 * t0) - t0 * v.x) / 2, (u.y * (1 - 2 * t0) - t0 * v.y) / 2); (void)d1; q[1] = BLPoint(q[0].x + c0.x, q[0].y + c0.y); q[2] = BLPoint(q[1].x + c1.x, q[1].y + c1.y); q[3] = BLPoint(q[2].x + c2.x, q[2].y + c2.y); cusps++; }
        else if (r.chance(1, 10)) q[1] = q[0]; else if (r.chance(1, 10)) q[2] = q[3]; if (hypot(q[1].x - q[0].x, q[1].y - q[0].y) + hypot(q[2].x - q[1].x, q[2].y - q[1].y) + hypot(q[3].x - q[2].x, q[3].y - q[2].y) < 1e-6) continue; path.cubic_to(q[1], q[2], q[3]); b.curve(q, 3, 200); curves++; } }
    bool close = r.chance(1, 3); if (close) { path.close(); b.line(b.start); b.f.closed = true; } if (b.f.segs.empty()) continue; b.mark(hw); b.f.de = b.last; if (close) b.f.joins.push_back({b.start, b.last, b.f.ds, 1}); b.corners(hw); figs.push_back(b.f); }
  BLStrokeOptions o; o.width = 2 * hw; o.join = uint8_t(r.below(5)); o.start_cap = uint8_t(r.below(6)); o.end_cap = uint8_t(r.below(6)); o.miter_limit = r.chance(1, 3) ? 4 : r.chance(1, 4) ? r.dbl(0, 1.5) : r.dbl(1, 10); BLApproximationOptions ao = bl_default_approximation_options; if (r.chance(1, 4)) { ao.offset_parameter = r.dbl(0.1, 0.45); ao.simplify_tolerance = r.dbl(0.01, 0.1); }
  BLPath out; BLResult x = out.add_stroked_path(path, o, ao); char d[2400]; snprintf(d, sizeof d, "width %.9g join %d caps %d %d miter limit %.9g of%s", 2 * hw, o.join, o.start_cap, o.end_cap, o.miter_limit, text(path).c_str()); if (ao.offset_parameter != bl_default_approximation_options.offset_parameter) snprintf(d + strlen(d), sizeof d - strlen(d), " (offset parameter %.9g, simplify tolerance %.9g)", ao.offset_parameter, ao.simplify_tolerance); if (st().verbose) { printf("case %llu: %s\n  -> %s\n", (unsigned long long)g_case, d, text(out).c_str()); fflush(stdout); }
  { BLPathView v = out.view(); for (size_t i = 0; i < v.size; i++) if (v.command_data[i] != BL_PATH_CMD_CLOSE) VH_CHECK(std::isfinite(v.vertex_data[i].x) && std::isfinite(v.vertex_data[i].y), "not-finite", "%s: vertex #%zu of the outline is (%g,%g)", d, i, v.vertex_data[i].x, v.vertex_data[i].y); } VH_CHECK(x == BL_SUCCESS, "error", "%s returned %u", d, x); Edges ed; flatten(out, ed); if (figs.empty()) { VH_CHECK(out.is_empty(), "nothing", "%s gave an outline", d); count("nothing to stroke"); return; }
  Hash hs; hs.add(r.u64()).add(hw); distinct(hs.h); sample("%s", d); double e = 0.01 + (curves ? 0.1 + 0.17 * hw : 0) + (o.join == BL_STROKE_JOIN_ROUND || o.join == BL_STROKE_JOIN_MITER_ROUND || o.start_cap == 2 || o.start_cap == 3 || o.end_cap == 2 || o.end_cap == 3 ? 0.002 * hw : 0); if (ao.simplify_tolerance > 0.05) e += ao.simplify_tolerance; uint64_t in = 0, outc = 0, near = 0, tight = 0, corner = 0;
  for (int i = 0; i < 60; i++) {
    BLPoint p; auto& f = figs[r.below(figs.size())]; int k = int(r.below(5)); double sgn = r.chance(1, 2) ? 1 : -1, rel = r.chance(1, 2) ? r.dbl(-0.3, 0.3) : r.dbl(-3, 3) * e / hw; if (k == 0 || k == 1) { auto& s = f.segs[r.below(f.segs.size())]; double t = k ? r.dbl(-0.2, 1.2) : r.unit(); p = mad(mad(s.a, s.d, s.len * t), BLPoint(-s.d.y, s.d.x), sgn * hw * (1 + rel)); } else if (k == 2) { bool en = r.chance(1, 2); BLPoint v = en ? f.segs.back().b : f.segs[0].a; double a = r.dbl(0, 7), q = hw * (r.chance(1, 2) ? 1 + rel : r.dbl(0, 1.5)); p = BLPoint(v.x + cos(a) * q, v.y + sin(a) * q); } else if (k == 3 && !f.joins.empty()) { size_t ji = r.below(f.joins.size()); for (int z = 0; z < 20 && !f.joins[ji].kind; z++) ji = r.below(f.joins.size()); auto& j = f.joins[ji]; double a = r.dbl(0, 7), q = hw * (r.chance(1, 2) ? 1 + rel : r.chance(1, 2) ? r.dbl(0, 1.5) : r.dbl(0, o.miter_limit + 1)); if (r.chance(1, 2)) { BLPoint u = unit(BLPoint(j.d0.x - j.d1.x, j.d0.y - j.d1.y)); a = atan2(u.y, u.x) + r.dbl(-0.4, 0.4); } p = BLPoint(j.v.x + cos(a) * q, j.v.y + sin(a) * q); } else p = BLPoint(r.dbl(-hw * 2, S + hw * 2), r.dbl(-hw * 2, S + hw * 2));
    if (curves && near_tight(figs, p, hw + 2 * e)) { tight++; continue; } if (curves && at_cap(figs, p, hw, e)) { near++; continue; } if (in_inner(figs, p, e)) { corner++; continue; } bool must = covers(figs, p, hw, o, -e, true), may = must || covers(figs, p, hw, o, e, false); if (must) in++; else if (!may) outc++; else { near++; continue; } int w = winding(ed, p); double off = e; if ((w != 0) != must) while (off < 100 && (must ? covers(figs, p, hw, o, -off, true) : !covers(figs, p, hw, o, off, false))) off *= 1.1; if (must) VH_CHECK(w != 0, curves ? "curve-missing" : "line-missing", "%s: (%.9g,%.9g) is swept by the pen (off by %.3g), but it isn't in the outline", d, p.x, p.y, off); else VH_CHECK(w == 0, curves ? "curve-excess" : "line-excess", "%s: (%.9g,%.9g) is in the outline, but the pen doesn't sweep it (off by %.3g)", d, p.x, p.y, off); }
  count("points inside", in); count("points outside", outc); count("points near the border", near); count("points near a tight turn of a curve", tight); count("points in an inner corner", corner); evals(in + outc); if (curves) count("curves"); else count("polylines"); if (cusps) count("cusps"); static const char* JN[] = {"miter clip", "miter bevel", "miter round", "bevel", "round"}; count(JN[o.join]); for (auto& f : figs) count(f.closed ? "closed" : "open");
}
