// P05: path construction against a list model. P06: path queries against geometry computed in long double.
// P38: 2x3 matrix algebra.
#include "vh.h"
using namespace vh;
typedef long double LD;
static bool same_d(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
struct Cmd { uint8_t c; BLPoint v; };
typedef std::vector<Cmd> Model;
static const double kNaN = std::numeric_limits<double>::quiet_NaN();
static bool is_point(uint8_t c) { return c <= BL_PATH_CMD_CUBIC; }

static std::string path_str(const BLPath& p, size_t from = 0) {
  std::string s; char b[80];
  for (size_t i = from; i < p.size() && i < from + 40; i++) { snprintf(b, sizeof b, "%u(%.17g,%.17g) ", p.command_data()[i], p.vertex_data()[i].x, p.vertex_data()[i].y); s += b; }
  return s;
}
// Compares, with a tolerance for computed vertices from index `computed_from` on, and adopts the computed values.
static void compare(const BLPath& p, Model& m, const char* what, size_t computed_from = SIZE_MAX, double tol = 0) {
  VH_CHECK(p.size() == m.size(), "path-size", "%s: size %zu, model %zu: %s", what, p.size(), m.size(), path_str(p).c_str());
  VH_CHECK(p.capacity() >= p.size(), "path-capacity", "%s: capacity %zu < size %zu", what, p.capacity(), p.size());
  VH_CHECK(p.is_empty() == m.empty(), "path-empty", "%s", what);
  const uint8_t* c = p.command_data(); const BLPoint* v = p.vertex_data();
  for (size_t i = 0; i < m.size(); i++) {
    VH_CHECK(c[i] == m[i].c, "path-cmd", "%s: command %zu is %u, model %u: %s", what, i, c[i], m[i].c, path_str(p).c_str());
    double a[2] = {v[i].x, v[i].y}, b[2] = {m[i].v.x, m[i].v.y};
    if (m[i].c == BL_PATH_CMD_WEIGHT && std::isnan(b[1])) b[1] = a[1]; // The second half of a weight and the vertex of CLOSE have no meaning.
    if (m[i].c == BL_PATH_CMD_CLOSE) b[0] = a[0], b[1] = a[1];
    for (int k = 0; k < 2; k++) {
      bool ok = same_d(a[k], b[k]) || (i >= computed_from && fabs(a[k] - b[k]) <= tol * (1 + fabs(b[0]) + fabs(b[1])));
      if (!ok && i >= computed_from && !std::isfinite(b[k]) && !std::isfinite(a[k])) ok = true;
      VH_CHECK(ok, "path-vtx", "%s: vertex %zu is (%.17g,%.17g), model (%.17g,%.17g)", what, i, a[0], a[1], b[0], b[1]);
    }
    m[i].v = v[i];
  }
}
static double coord(Rng& r) {
  switch (r.below(6)) { case 0: return double(r.range(-5, 20)); case 1: return double(r.range(0, 8)) * 0.5; default: return r.dbl(-100, 400); }
}
static BLPoint pt(Rng& r) { return BLPoint(coord(r), coord(r)); }
static BLMatrix2D rnd_matrix(Rng& r) {
  switch (r.below(7)) {
    case 0: return BLMatrix2D::make_identity(); case 1: return BLMatrix2D::make_translation(coord(r), coord(r));
    case 2: return BLMatrix2D::make_scaling(r.dbl(-3, 3), r.dbl(-3, 3)); case 3: return BLMatrix2D(0, r.dbl(0.2, 2), r.dbl(-2, -0.2), 0, coord(r), coord(r));
    case 4: return BLMatrix2D(r.dbl(0.1, 2), 0, 0, r.dbl(0.1, 2), coord(r), coord(r));
    default: return BLMatrix2D(r.dbl(-2, 2), r.dbl(-2, 2), r.dbl(-2, 2), r.dbl(-2, 2), coord(r), coord(r));
  }
}
static BLPoint mapm(const BLMatrix2D& m, BLPoint p) { return BLPoint(double((LD)p.x * m.m00 + (LD)p.y * m.m10 + m.m20), double((LD)p.x * m.m01 + (LD)p.y * m.m11 + m.m21)); }

// Well formed: figures MOVE (ON | QUAD ON | CONIC WEIGHT ON | CUBIC CUBIC ON)* [CLOSE]; `figs` gets their ranges.
static bool well_formed(const Model& m, size_t s, size_t e, std::vector<std::pair<size_t, size_t>>* figs = nullptr, bool closed_point = false) {
  size_t i = s;
  while (i < e) {
    size_t f = i; if (m[i].c != BL_PATH_CMD_MOVE) return false;
    i++; bool closed = false;
    while (i < e && m[i].c != BL_PATH_CMD_MOVE) {
      uint8_t c = m[i].c;
      if (c == BL_PATH_CMD_ON) i++;
      else if (c == BL_PATH_CMD_QUAD) { if (i + 2 > e || m[i + 1].c != BL_PATH_CMD_ON) return false; i += 2; }
      else if (c == BL_PATH_CMD_CONIC) { if (i + 3 > e || m[i + 1].c != BL_PATH_CMD_WEIGHT || m[i + 2].c != BL_PATH_CMD_ON) return false; if (closed_point && !(m[i + 1].v.x > 0.01 && m[i + 1].v.x < 100)) return false; i += 3; }
      else if (c == BL_PATH_CMD_CUBIC) { if (i + 3 > e || m[i + 1].c != BL_PATH_CMD_CUBIC || m[i + 2].c != BL_PATH_CMD_ON) return false; i += 3; }
      else if (c == BL_PATH_CMD_CLOSE) { i++; closed = true; break; }
      else return false;
    }
    if (closed && i - f == 2 && !closed_point) return false; // A closed single vertex has no defined reversal.
    if (figs) figs->push_back({f, i});
  }
  return true;
}
static void reverse_figure(const Model& m, size_t s, size_t e, Model& out) {
  bool closed = m[e - 1].c == BL_PATH_CMD_CLOSE; if (closed) e--;
  out.push_back({BL_PATH_CMD_MOVE, m[e - 1].v});
  size_t i = e - 1;
  while (i > s) { // i: end vertex of a segment
    size_t k = i - 1; uint8_t c = m[k].c;
    if (c == BL_PATH_CMD_WEIGHT) { out.push_back({BL_PATH_CMD_CONIC, m[i - 2].v}); out.push_back({BL_PATH_CMD_WEIGHT, m[k].v}); i -= 3; }
    else if (c == BL_PATH_CMD_CUBIC) { out.push_back({c, m[k].v}); out.push_back({c, m[k - 1].v}); i -= 3; }
    else if (c == BL_PATH_CMD_QUAD) { out.push_back({c, m[k].v}); i -= 2; }
    else i -= 1;
    out.push_back({BL_PATH_CMD_ON, m[i].v});
  }
  if (closed) out.push_back({BL_PATH_CMD_CLOSE, BLPoint(kNaN, kNaN)});
}
static void box_model(Model& m, double x0, double y0, double x1, double y1, bool cw) {
  m.push_back({0, BLPoint(x0, y0)}); m.push_back({1, cw ? BLPoint(x1, y0) : BLPoint(x0, y1)}); m.push_back({1, BLPoint(x1, y1)}); m.push_back({1, cw ? BLPoint(x0, y1) : BLPoint(x1, y0)}); m.push_back({BL_PATH_CMD_CLOSE, BLPoint(kNaN, kNaN)});
}
static BLPoint bez3(const BLPoint* p, double t) { double u = 1 - t; return BLPoint(u*u*u*p[0].x + 3*u*u*t*p[1].x + 3*u*t*t*p[2].x + t*t*t*p[3].x, u*u*u*p[0].y + 3*u*u*t*p[1].y + 3*u*t*t*p[2].y + t*t*t*p[3].y); }

// Checks that [from, to) of the path is CUBIC CUBIC ON segments that run along the unit circle mapped by (c, rx, ry, rot)
// from `start` over `sweep` radians; p0 is the vertex the first segment starts at.
static void check_arc(const BLPath& p, size_t p0, size_t from, size_t to, BLPoint c, double rx, double ry, double rot, double start, double sweep, const BLMatrix2D* m, const char* what) {
  const uint8_t* cd = p.command_data(); const BLPoint* v = p.vertex_data(); size_t n = to - from;
  VH_CHECK(n % 3 == 0 && n <= 12, "arc-shape", "%s: %zu vertices of an arc", what, n);
  BLMatrix2D inv; bool has = false; if (m) { if (fabs(m->determinant()) < 1e-3 || BLMatrix2D::invert(inv, *m) != BL_SUCCESS) return; has = true; }
  double scale = std::max(fabs(rx), fabs(ry)), tolp = 1e-6 * (1 + (fabs(c.x) + fabs(c.y) + scale) / std::min(fabs(rx), fabs(ry)));
  if (tolp > 1e-3) return;
  double total = 0; BLPoint prev(0, 0); bool first = true; double cr = cos(rot), sr = sin(rot); double sgn = sweep < 0 ? -1 : 1; if (fabs(sweep) > 2 * M_PI) sweep = sgn * 2 * M_PI;
  auto unit = [&](BLPoint q) { if (has) q = inv.map_point(q); double dx = q.x - c.x, dy = q.y - c.y; return BLPoint((dx * cr + dy * sr) / rx, (-dx * sr + dy * cr) / ry); };
  for (size_t i = from; i < to; i += 3) {
    VH_CHECK(cd[i] == BL_PATH_CMD_CUBIC && cd[i + 1] == BL_PATH_CMD_CUBIC && cd[i + 2] == BL_PATH_CMD_ON, "arc-cmd", "%s: commands %u %u %u", what, cd[i], cd[i + 1], cd[i + 2]);
    BLPoint q[4] = {i == from ? v[p0] : v[i - 1], v[i], v[i + 1], v[i + 2]};
    for (int k = 0; k <= 16; k++) {
      BLPoint u = unit(bez3(q, k / 16.0)); double rad = hypot(u.x, u.y);
      VH_CHECK(fabs(rad - 1) < 4e-4 + tolp, "arc-radius", "%s: point at %d/16 of segment %zu has relative radius %.9g", what, k, (i - from) / 3, rad);
      if (first) { VH_CHECK(hypot(u.x - cos(start), u.y - sin(start)) < 1e-6 + tolp * 4, "arc-start", "%s: starts at (%g,%g), expected angle %g", what, u.x, u.y, start); first = false; }
      else { double d = atan2(prev.x * u.y - prev.y * u.x, prev.x * u.x + prev.y * u.y); VH_CHECK(d * sgn > -1e-6 - tolp * 4, "arc-monotone", "%s: runs backwards by %g", what, d); total += d; }
      prev = u;
    }
  }
  VH_CHECK(n == 0 ? fabs(sweep) < 1e-6 : fabs(total - sweep) < 1e-5 + tolp * 8, "arc-sweep", "%s: sweeps %.9g, expected %.9g", what, total, sweep);
}

// ---------------------------------------------------------------------------------------------------------------- P05
struct P05 {
  BLPath p[3]; Model m[3]; Rng& r; Hash h; bool geo; // geo: only well formed content (for queries).
  P05(Rng& rng, bool g) : r(rng), geo(g) {}
  bool can_draw(int a) { return !geo || (!m[a].empty() && m[a].back().c <= BL_PATH_CMD_ON); }
  void range(int b, BLRange& rg, size_t& s, size_t& e, bool& full) {
    full = r.chance(1, 3); size_t n = m[b].size();
    if (full) { s = 0; e = n; return; }
    s = r.below(n + 3); e = r.below(8) == 0 ? SIZE_MAX : r.below(n + 3); rg.start = s; rg.end = e; if (e > n) e = n; if (s > e) s = e;
  }
  void step() {
    int a = int(r.below(3)), b = int(r.below(3)); BLPath& P = p[a]; Model& M = m[a]; BLRange rg; size_t s, e; bool full; uint32_t op = uint32_t(r.below(40));
    size_t old = M.size(); h.add(op).add(a).add(b).add(old);
    if (M.size() > 3000) op = 34;
    bool cw = r.chance(1, 2); BLGeometryDirection dir = cw ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW; if (cw && r.chance(1, 4)) dir = BL_GEOMETRY_DIRECTION_NONE, cw = false;
    switch (op) {
      case 0: case 1: { BLPoint q = pt(r); VH_OK(P.move_to(q), "move_to"); M.push_back({0, q}); compare(P, M, "move_to"); break; }
      case 2: case 3: case 4: { if (!can_draw(a)) return; BLPoint q = pt(r); VH_OK(P.line_to(q), "line_to"); M.push_back({1, q}); compare(P, M, "line_to"); break; }
      case 5: case 6: { if (!can_draw(a)) return; BLPoint q = pt(r), q2 = pt(r); VH_OK(P.quad_to(q, q2), "quad_to"); M.push_back({2, q}); M.push_back({1, q2}); compare(P, M, "quad_to"); break; }
      case 7: { if (!can_draw(a)) return; BLPoint q = pt(r), q2 = pt(r); double w = r.dbl(0.1, 4); VH_OK(P.conic_to(q, q2, w), "conic_to"); M.push_back({3, q}); M.push_back({6, BLPoint(w, kNaN)}); M.push_back({1, q2}); compare(P, M, "conic_to"); break; }
      case 8: case 9: { if (!can_draw(a)) return; BLPoint q = pt(r), q2 = pt(r), q3 = pt(r); VH_OK(P.cubic_to(q, q2, q3), "cubic_to"); M.push_back({4, q}); M.push_back({4, q2}); M.push_back({1, q3}); compare(P, M, "cubic_to"); break; }
      case 10: case 11: { // smooth
        bool cubic = op == 11; BLPoint q2 = pt(r), q3 = pt(r); bool ok = !M.empty() && M.back().c < BL_PATH_CMD_CLOSE; if (geo && !can_draw(a)) return;
        BLResult res = cubic ? P.smooth_cubic_to(q2, q3) : P.smooth_quad_to(q2);
        if (!ok) { VH_CHECK(res == BL_ERROR_NO_MATCHING_VERTEX, "smooth-reject", "result %u", res); compare(P, M, "rejected smooth"); count("rejected"); break; }
        VH_CHECK(res == BL_SUCCESS, "smooth", "result %u", res);
        BLPoint c1 = M.back().v; bool odd = M.back().c != BL_PATH_CMD_ON; uint8_t kind = cubic ? BL_PATH_CMD_CUBIC : BL_PATH_CMD_QUAD;
        if (M.size() >= 2 && M[M.size() - 2].c == kind) { BLPoint o = M[M.size() - 2].v; if (odd) c1 = P.vertex_data()[old]; else c1 = BLPoint(2 * c1.x - o.x, 2 * c1.y - o.y); }
        M.push_back({kind, c1}); M.push_back({cubic ? kind : uint8_t(1), q2}); if (cubic) M.push_back({1, q3}); compare(P, M, "smooth", old, 1e-12); break; }
      case 12: { // arc_quadrant
        BLPoint q1 = pt(r), q2 = pt(r); bool ok = !M.empty() && M.back().c < BL_PATH_CMD_CLOSE; if (geo && !can_draw(a)) return;
        BLResult res = P.arc_quadrant_to(q1, q2);
        if (!ok) { VH_CHECK(res == BL_ERROR_NO_MATCHING_VERTEX, "quadrant-reject", "result %u", res); compare(P, M, "rejected arc_quadrant_to"); count("rejected"); break; }
        VH_CHECK(res == BL_SUCCESS, "quadrant", "result %u", res); const double K = 0.55228474983; BLPoint q0 = M.back().v;
        M.push_back({4, BLPoint(q0.x + (q1.x - q0.x) * K, q0.y + (q1.y - q0.y) * K)}); M.push_back({4, BLPoint(q2.x + (q1.x - q2.x) * K, q2.y + (q1.y - q2.y) * K)}); M.push_back({1, q2}); compare(P, M, "arc_quadrant_to", old, 1e-7); break; }
      case 13: case 14: { // arc_to
        BLPoint c = pt(r), rd(r.dbl(1, 100), r.dbl(1, 100)); double st = r.dbl(-8, 8), sw = r.chance(1, 6) ? r.range(-5, 5) * (M_PI / 2) : r.dbl(-8, 8); bool force = r.chance(1, 2);
        if (r.chance(1, 6) && !M.empty() && M.back().c <= 1) { c = BLPoint(M.back().v.x - rd.x * cos(st), M.back().v.y - rd.y * sin(st)); }
        if (geo && !force && !M.empty() && M.back().c > 1 && M.back().c != BL_PATH_CMD_CLOSE) return;
        bool line = !force && !M.empty() && M.back().c <= 1;
        VH_OK(P.arc_to(c, rd, st, sw, force), "arc_to"); size_t n = P.size(); BLPoint sp(c.x + rd.x * cos(st), c.y + rd.y * sin(st));
        VH_CHECK(n >= old, "arc-size", "size shrank"); size_t add = n - old, arc = old; bool join = line && add % 3 == 0;
        if (join) VH_CHECK(fabs(M.back().v.x - sp.x) < 1e-9 && fabs(M.back().v.y - sp.y) < 1e-9, "arc-join", "no line to the start point of the arc");
        else { VH_CHECK(add % 3 == 1 && P.command_data()[old] == (line ? 1 : 0), "arc-first", "%zu vertices added, first command %u", add, P.command_data()[old]); arc = old + 1; BLPoint f = P.vertex_data()[old]; VH_CHECK(fabs(f.x - sp.x) + fabs(f.y - sp.y) < 1e-7, "arc-first-vtx", "arc starts at (%g,%g), expected (%g,%g)", f.x, f.y, sp.x, sp.y); }
        check_arc(P, arc - 1, arc, n, c, rd.x, rd.y, 0, st, sw, nullptr, "arc_to");
        for (size_t i = old; i < n; i++) M.push_back({P.command_data()[i], P.vertex_data()[i]}); compare(P, M, "arc_to"); count("arcs"); break; }
      case 15: case 16: { // elliptic_arc_to
        double rx = r.dbl(1, 200), ry = r.dbl(1, 200), rot = r.dbl(-4, 4); bool large = r.chance(1, 2), sweep = r.chance(1, 2); BLPoint q = pt(r); if (r.chance(1, 12) && !M.empty()) q = M.back().v; if (r.chance(1, 16)) rx = 0; if (r.chance(1, 8)) rx = -rx;
        bool ok = !M.empty() && M.back().c <= 1; if (geo && !ok) return;
        BLResult res = P.elliptic_arc_to(BLPoint(rx, ry), rot, large, sweep, q);
        if (!ok) { VH_CHECK(res == BL_ERROR_NO_MATCHING_VERTEX, "elliptic-reject", "result %u", res); compare(P, M, "rejected elliptic_arc_to"); count("rejected"); break; }
        VH_CHECK(res == BL_SUCCESS, "elliptic", "result %u", res); BLPoint q0 = M.back().v;
        if (q0 == q) { compare(P, M, "elliptic arc to the same point"); break; }
        if (rx == 0) { M.push_back({1, q}); compare(P, M, "degenerate elliptic arc"); break; }
        // SVG 1.1 F.6.5.
        rx = fabs(rx); LD cr = cosl(rot), sr = sinl(rot), dx = ((LD)q0.x - q.x) / 2, dy = ((LD)q0.y - q.y) / 2, x1 = cr * dx + sr * dy, y1 = -sr * dx + cr * dy, lam = x1 * x1 / ((LD)rx * rx) + y1 * y1 / ((LD)ry * ry), Rx = rx, Ry = ry; bool scaled = lam > 1 - 1e-6;
        if (lam > 1) { Rx *= sqrtl(lam); Ry *= sqrtl(lam); }
        LD num = Rx * Rx * Ry * Ry - Rx * Rx * y1 * y1 - Ry * Ry * x1 * x1, k = sqrtl(std::max<LD>(0, num / (Rx * Rx * y1 * y1 + Ry * Ry * x1 * x1))); if (large == sweep) k = -k;
        LD cx1 = k * Rx * y1 / Ry, cy1 = -k * Ry * x1 / Rx, cx = cr * cx1 - sr * cy1 + ((LD)q0.x + q.x) / 2, cy = sr * cx1 + cr * cy1 + ((LD)q0.y + q.y) / 2;
        LD t1 = atan2l((y1 - cy1) / Ry, (x1 - cx1) / Rx), t2 = atan2l((-y1 - cy1) / Ry, (-x1 - cx1) / Rx), dt = t2 - t1; if (sweep && dt < 0) dt += 2 * M_PIl; if (!sweep && dt > 0) dt -= 2 * M_PIl;
        size_t n = P.size(); BLPoint last = P.vertex_data()[n - 1]; VH_CHECK(last == q, "elliptic-end", "ends at (%g,%g), expected (%g,%g)", last.x, last.y, q.x, q.y);
        if (!scaled && fabsl(dt) > 1e-3) check_arc(P, old - 1, old, n, BLPoint(double(cx), double(cy)), double(Rx), double(Ry), rot, double(t1), double(dt), nullptr, "elliptic_arc_to");
        for (size_t i = old; i < n; i++) M.push_back({P.command_data()[i], P.vertex_data()[i]}); compare(P, M, "elliptic_arc_to"); count("arcs"); break; }
      case 17: case 18: { if (geo && !can_draw(a)) return; VH_OK(P.close(), "close"); M.push_back({BL_PATH_CMD_CLOSE, BLPoint(kNaN, kNaN)}); compare(P, M, "close"); break; }
      case 19: { if (!can_draw(a)) return; BLPoint q[20]; size_t n = r.below(20); for (size_t i = 0; i < n; i++) q[i] = pt(r), M.push_back({1, q[i]}); VH_OK(P.poly_to(q, n), "poly_to"); compare(P, M, "poly_to"); break; }
      case 20: { BLBoxI bi(int(r.range(-50, 50)), int(r.range(-50, 50)), int(r.range(-50, 50)), int(r.range(-50, 50))); BLBox bd(coord(r), coord(r), coord(r), coord(r));
        switch (r.below(4)) { case 0: VH_OK(P.add_box(bi, dir), "add_box"); box_model(M, bi.x0, bi.y0, bi.x1, bi.y1, cw); break; case 1: VH_OK(P.add_box(bd, dir), "add_box"); box_model(M, bd.x0, bd.y0, bd.x1, bd.y1, cw); break;
          case 2: VH_OK(P.add_rect(BLRectI(bi.x0, bi.y0, bi.x1, bi.y1), dir), "add_rect"); box_model(M, bi.x0, bi.y0, bi.x0 + bi.x1, bi.y0 + bi.y1, cw); break; default: VH_OK(P.add_rect(BLRect(bd.x0, bd.y0, bd.x1, bd.y1), dir), "add_rect"); box_model(M, bd.x0, bd.y0, bd.x0 + bd.x1, bd.y0 + bd.y1, cw); }
        compare(P, M, "add_box"); break; }
      case 21: case 22: case 23: case 24: geometry(a, b, dir, cw); break;
      case 25: { range(b, rg, s, e, full); Model add(m[b].begin() + s, m[b].begin() + e); if (geo && !well_formed(add, 0, add.size())) return; VH_OK(bl_path_add_path(&P, &p[b], full ? nullptr : &rg), "add_path"); M.insert(M.end(), add.begin(), add.end()); compare(P, M, "add_path"); break; }
      case 26: { range(b, rg, s, e, full); Model add(m[b].begin() + s, m[b].begin() + e); if (geo && !well_formed(add, 0, add.size())) return; BLPoint t = pt(r); VH_OK(bl_path_add_translated_path(&P, &p[b], full ? nullptr : &rg, &t), "add_translated_path");
        for (auto& x : add) if (is_point(x.c)) x.v = BLPoint(x.v.x + t.x, x.v.y + t.y); M.insert(M.end(), add.begin(), add.end()); compare(P, M, "add_translated_path", old, 1e-12); break; }
      case 27: { range(b, rg, s, e, full); Model add(m[b].begin() + s, m[b].begin() + e); if (geo && !well_formed(add, 0, add.size())) return; BLMatrix2D t = rnd_matrix(r); VH_OK(bl_path_add_transformed_path(&P, &p[b], full ? nullptr : &rg, &t), "add_transformed_path");
        for (auto& x : add) if (is_point(x.c)) x.v = mapm(t, x.v); M.insert(M.end(), add.begin(), add.end()); compare(P, M, "add_transformed_path", old, 1e-9); break; }
      case 28: case 29: { range(b, rg, s, e, full); Model src(m[b].begin() + s, m[b].begin() + e), add; std::vector<std::pair<size_t, size_t>> figs; bool wf = well_formed(src, 0, src.size(), &figs); if (geo && !wf) return;
        BLPathReverseMode mode = r.chance(1, 2) ? BL_PATH_REVERSE_MODE_COMPLETE : BL_PATH_REVERSE_MODE_SEPARATE; if (r.chance(1, 30)) { VH_CHECK(bl_path_add_reversed_path(&P, &p[b], nullptr, BLPathReverseMode(7)) == BL_ERROR_INVALID_VALUE, "reverse-mode", "accepted"); compare(P, M, "rejected add_reversed_path"); count("rejected"); break; }
        BLResult res = bl_path_add_reversed_path(&P, &p[b], full ? nullptr : &rg, mode);
        if (!wf) { if (res != BL_SUCCESS) { compare(P, M, "failed add_reversed_path"); count("rejected"); break; } VH_CHECK(P.size() >= old && P.size() <= old + src.size(), "reverse-size", "size %zu after %zu+%zu", P.size(), old, src.size()); for (size_t i = old; i < P.size(); i++) M.push_back({P.command_data()[i], P.vertex_data()[i]}); compare(P, M, "add_reversed_path(irregular)"); break; }
        VH_CHECK(res == BL_SUCCESS, "reverse", "result %u", res); if (mode == BL_PATH_REVERSE_MODE_COMPLETE) std::reverse(figs.begin(), figs.end());
        for (auto& f : figs) reverse_figure(src, f.first, f.second, add); M.insert(M.end(), add.begin(), add.end()); compare(P, M, "add_reversed_path"); count("reversed"); break; }
      case 30: { range(a, rg, s, e, full); if (full && r.chance(2, 3)) return; if (geo) { Model t = M; t.erase(t.begin() + s, t.begin() + e); if (!well_formed(t, 0, t.size())) return; } VH_OK(bl_path_remove_range(&P, full ? nullptr : &rg), "remove_range"); M.erase(M.begin() + s, M.begin() + e); compare(P, M, "remove_range"); break; }
      case 31: { range(a, rg, s, e, full); BLPoint t = pt(r); VH_OK(bl_path_translate(&P, full ? nullptr : &rg, &t), "translate"); for (size_t i = s; i < e; i++) if (is_point(M[i].c)) M[i].v = BLPoint(M[i].v.x + t.x, M[i].v.y + t.y); compare(P, M, "translate", 0, 1e-12); break; }
      case 32: { range(a, rg, s, e, full); BLMatrix2D t = rnd_matrix(r); VH_OK(bl_path_transform(&P, full ? nullptr : &rg, &t), "transform"); for (size_t i = s; i < e; i++) if (is_point(M[i].c)) M[i].v = mapm(t, M[i].v); for (auto& x : M) if (!std::isfinite(x.v.x) || fabs(x.v.x) > 1e6 || fabs(x.v.y) > 1e6) if (is_point(x.c)) { compare(P, M, "transform", 0, 1e-9); P.clear(); M.clear(); return; } compare(P, M, "transform", 0, 1e-9); break; }
      case 33: { size_t i = r.below(M.size() + 2); BLPoint q = pt(r); static const uint32_t cmds[] = {BL_PATH_CMD_PRESERVE, BL_PATH_CMD_PRESERVE, BL_PATH_CMD_MOVE, BL_PATH_CMD_ON, BL_PATH_CMD_QUAD, BL_PATH_CMD_CLOSE}; uint32_t c = r.pick(cmds); if (geo) { c = BL_PATH_CMD_PRESERVE; if (i < M.size() && !is_point(M[i].c)) return; } BLResult res = P.set_vertex_at(i, c, q);
        if (i >= M.size()) { VH_CHECK(res == BL_ERROR_INVALID_VALUE, "set_vertex-reject", "result %u", res); compare(P, M, "rejected set_vertex_at"); count("rejected"); break; }
        VH_CHECK(res == BL_SUCCESS, "set_vertex", "result %u", res); if (c != BL_PATH_CMD_PRESERVE) M[i].c = uint8_t(c); M[i].v = q; if (M[i].c == BL_PATH_CMD_WEIGHT) ; compare(P, M, "set_vertex_at"); break; }
      case 34: { if (r.chance(1, 2)) { VH_OK(P.clear(), "clear"); } else { VH_OK(P.reset(), "reset"); } M.clear(); compare(P, M, "clear"); break; }
      case 35: { if (r.chance(1, 2)) { p[a] = p[b]; m[a] = m[b]; } else { VH_OK(p[a].assign_deep(p[b]), "assign_deep"); m[a] = m[b]; } compare(P, M, "assign"); break; }
      case 36: { if (a == b) return; if (r.chance(1, 2)) { p[a].swap(p[b]); std::swap(m[a], m[b]); } else { p[a] = std::move(p[b]); m[a] = m[b]; m[b].clear(); } compare(p[a], m[a], "move"); compare(p[b], m[b], "moved-from"); break; }
      case 37: { size_t n = r.below(200); VH_OK(P.reserve(n), "reserve"); VH_CHECK(P.capacity() >= n, "reserve-capacity", "capacity %zu after reserve(%zu)", P.capacity(), n); compare(P, M, "reserve"); break; }
      case 38: { BLResult res = P.shrink(); bool v = valid(M); VH_CHECK((res == BL_SUCCESS) == v || !v, "shrink", "result %u of a valid path", res); compare(P, M, "shrink"); break; }
      case 39: { if (geo) return; bool app = r.chance(1, 2), grow = r.chance(1, 2); size_t n = r.below(30); uint8_t* cd; BLPoint* vd; BLModifyOp mo = app ? (grow ? BL_MODIFY_OP_APPEND_GROW : BL_MODIFY_OP_APPEND_FIT) : (grow ? BL_MODIFY_OP_ASSIGN_GROW : BL_MODIFY_OP_ASSIGN_FIT);
        VH_OK(P.modify_op(mo, n, &cd, &vd), "modify_op"); if (!app) M.clear(); for (size_t i = 0; i < n; i++) { cd[i] = uint8_t(i ? 1 : 0); vd[i] = pt(r); M.push_back({cd[i], vd[i]}); } compare(P, M, "modify_op"); break; }
    }
    count("path ops");
    if (int(r.below(4)) == 0) for (int i = 0; i < 3; i++) compare(p[i], m[i], "other handle");
  }
  static bool valid(const Model& m) { for (auto& x : m) if (is_point(x.c) && !(std::isfinite(x.v.x) && std::isfinite(x.v.y))) return false; size_t i = 0; bool has = false; while (i < m.size()) { switch (m[i].c) { case 0: has = true; i++; break; case 1: if (!has) return false; i++; break; case 2: if (!has) return false; i += 2; break; case 3: case 4: if (!has) return false; i += 3; break; case 5: has = false; i++; break; default: return false; } } return i == m.size(); }
  template<typename T> void polyline(int a, BLGeometryType type, bool closed, bool cw, BLGeometryDirection dir, const BLMatrix2D* mx, Model& add) {
    size_t n = r.below(9); std::vector<T> pts(n); for (auto& q : pts) { BLPoint z = pt(r); q = T(z.x, z.y); }
    // The array is placed so that reading around it is seen.
    std::unique_ptr<T[]> heap(new T[n ? n : 1]); std::copy(pts.begin(), pts.end(), heap.get()); BLArrayView<T> view; view.data = heap.get(); view.size = n;
    VH_OK(bl_path_add_geometry(&p[a], type, &view, mx, dir), "add_geometry(poly)"); if (!n) return;
    if (!cw) std::reverse(pts.begin(), pts.end());
    for (size_t i = 0; i < n; i++) add.push_back({uint8_t(i ? 1 : 0), BLPoint(pts[i].x, pts[i].y)}); if (closed) add.push_back({BL_PATH_CMD_CLOSE, BLPoint(kNaN, kNaN)});
  }
  template<typename T> void boxes(int a, BLGeometryType type, bool rect, bool cw, BLGeometryDirection dir, const BLMatrix2D* mx, Model& add) {
    size_t n = r.below(7); std::unique_ptr<T[]> heap(new T[n ? n : 1]); Model tmp; std::vector<Model> each;
    for (size_t i = 0; i < n; i++) { double x = coord(r), y = coord(r), x1 = rect ? r.dbl(-4, 50) : x + r.dbl(-4, 50), y1 = rect ? r.dbl(1, 50) : y + r.dbl(1, 50); memset((void*)&heap[i], 0, sizeof(T)); typedef decltype(*(&reinterpret_cast<double*>(0)[0])) D; (void)sizeof(D);
      set4(heap[i], x, y, x1, y1); double f[4]; get4(heap[i], f); bool valid = rect ? f[2] > 0 && f[3] > 0 : f[0] < f[2] && f[1] < f[3]; Model one; if (valid) box_model(one, f[0], f[1], rect ? f[0] + f[2] : f[2], rect ? f[1] + f[3] : f[3], cw); each.push_back(one); }
    BLArrayView<T> view; view.data = heap.get(); view.size = n; VH_OK(bl_path_add_geometry(&p[a], type, &view, mx, dir), "add_geometry(boxes)");
    if (!cw) std::reverse(each.begin(), each.end()); for (auto& o : each) add.insert(add.end(), o.begin(), o.end());
  }
  static void set4(BLBox& b, double x, double y, double z, double w) { b.reset(x, y, z, w); } static void set4(BLRect& b, double x, double y, double z, double w) { b.reset(x, y, z, w); }
  static void set4(BLBoxI& b, double x, double y, double z, double w) { b.reset(int(x), int(y), int(z), int(w)); } static void set4(BLRectI& b, double x, double y, double z, double w) { b.reset(int(x), int(y), int(z), int(w)); }
  static void get4(const BLBox& b, double* f) { f[0] = b.x0; f[1] = b.y0; f[2] = b.x1; f[3] = b.y1; } static void get4(const BLBoxI& b, double* f) { f[0] = b.x0; f[1] = b.y0; f[2] = b.x1; f[3] = b.y1; }
  static void get4(const BLRect& b, double* f) { f[0] = b.x; f[1] = b.y; f[2] = b.w; f[3] = b.h; } static void get4(const BLRectI& b, double* f) { f[0] = b.x; f[1] = b.y; f[2] = b.w; f[3] = b.h; }

  void geometry(int a, int b, BLGeometryDirection dir, bool cw) {
    BLPath& P = p[a]; Model& M = m[a]; Model add; size_t old = M.size(); BLMatrix2D t = rnd_matrix(r); const BLMatrix2D* mx = r.chance(1, 2) ? &t : nullptr; uint32_t k = uint32_t(r.below(16)); h.add(k);
    const double K = 0.55228474983; bool arc = false; double tol = 1e-7;
    auto cub = [&](double x1, double y1, double x2, double y2, double x3, double y3) { add.push_back({4, BLPoint(x1, y1)}); add.push_back({4, BLPoint(x2, y2)}); add.push_back({1, BLPoint(x3, y3)}); };
    switch (k) {
      case 0: case 1: { bool circle = k == 0; BLCircle ci(coord(r), coord(r), r.dbl(0, 50)); BLEllipse el(ci.cx, ci.cy, ci.r, circle ? ci.r : r.dbl(0, 50)); VH_OK(bl_path_add_geometry(&P, circle ? BL_GEOMETRY_TYPE_CIRCLE : BL_GEOMETRY_TYPE_ELLIPSE, circle ? (void*)&ci : (void*)&el, mx, dir), "add_geometry");
        double x = el.cx, y = el.cy, rx = el.rx, ry = cw ? el.ry : -el.ry, kx = rx * K, ky = ry * K; add.push_back({0, BLPoint(x + rx, y)}); cub(x + rx, y + ky, x + kx, y + ry, x, y + ry); cub(x - kx, y + ry, x - rx, y + ky, x - rx, y); cub(x - rx, y - ky, x - kx, y - ry, x, y - ry); cub(x + kx, y - ry, x + rx, y - ky, x + rx, y); add.push_back({5, BLPoint(kNaN, kNaN)}); break; }
      case 2: case 3: { BLRoundRect rr(coord(r), coord(r), r.dbl(1, 100), r.dbl(1, 100), r.dbl(-20, 60), r.dbl(-20, 60)); if (r.chance(1, 8)) rr.rx = 0; VH_OK(P.add_geometry(BL_GEOMETRY_TYPE_ROUND_RECT, &rr, mx, dir), "add_geometry(round rect)"); double x0 = rr.x, y0 = rr.y, x1 = x0 + rr.w, y1 = y0 + rr.h, rx = std::min(fabs(rr.rx), rr.w / 2), ry = std::min(fabs(rr.ry), rr.h / 2);
        if (rx < 1e-10 || ry < 1e-10) { box_model(add, x0, y0, x1, y1, cw); break; }
        double kx = rx * (1 - K), ky = ry * (1 - K);
        add.push_back({0, BLPoint(x0 + rx, y0)});
        if (cw) { add.push_back({1, BLPoint(x1 - rx, y0)}); cub(x1 - kx, y0, x1, y0 + ky, x1, y0 + ry); add.push_back({1, BLPoint(x1, y1 - ry)}); cub(x1, y1 - ky, x1 - kx, y1, x1 - rx, y1); add.push_back({1, BLPoint(x0 + rx, y1)}); cub(x0 + kx, y1, x0, y1 - ky, x0, y1 - ry); add.push_back({1, BLPoint(x0, y0 + ry)}); cub(x0, y0 + ky, x0 + kx, y0, x0 + rx, y0); }
        else { cub(x0 + kx, y0, x0, y0 + ky, x0, y0 + ry); add.push_back({1, BLPoint(x0, y1 - ry)}); cub(x0, y1 - ky, x0 + kx, y1, x0 + rx, y1); add.push_back({1, BLPoint(x1 - rx, y1)}); cub(x1 - kx, y1, x1, y1 - ky, x1, y1 - ry); add.push_back({1, BLPoint(x1, y0 + ry)}); cub(x1, y0 + ky, x1 - kx, y0, x1 - rx, y0); }
        add.push_back({5, BLPoint(kNaN, kNaN)}); break; }
      case 4: { BLLine l(coord(r), coord(r), coord(r), coord(r)); VH_OK(P.add_geometry(BL_GEOMETRY_TYPE_LINE, &l, mx, dir), "add_geometry(line)"); BLPoint q0(l.x0, l.y0), q1(l.x1, l.y1); if (!cw) std::swap(q0, q1); add.push_back({0, q0}); add.push_back({1, q1}); break; }
      case 5: { BLTriangle tr(coord(r), coord(r), coord(r), coord(r), coord(r), coord(r)); VH_OK(P.add_geometry(BL_GEOMETRY_TYPE_TRIANGLE, &tr, mx, dir), "add_geometry(triangle)"); BLPoint q0(tr.x0, tr.y0), q1(tr.x1, tr.y1), q2(tr.x2, tr.y2); if (!cw) std::swap(q0, q2); add.push_back({0, q0}); add.push_back({1, q1}); add.push_back({1, q2}); add.push_back({5, BLPoint(kNaN, kNaN)}); break; }
      case 6: polyline<BLPoint>(a, BL_GEOMETRY_TYPE_POLYLINED, false, cw, dir, mx, add); break;
      case 7: polyline<BLPointI>(a, BL_GEOMETRY_TYPE_POLYLINEI, false, cw, dir, mx, add); break;
      case 8: polyline<BLPoint>(a, BL_GEOMETRY_TYPE_POLYGOND, true, cw, dir, mx, add); break;
      case 9: polyline<BLPointI>(a, BL_GEOMETRY_TYPE_POLYGONI, true, cw, dir, mx, add); break;
      case 10: boxes<BLBox>(a, BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXD, false, cw, dir, mx, add); break;
      case 11: boxes<BLBoxI>(a, BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI, false, cw, dir, mx, add); break;
      case 12: if (r.chance(1, 2)) boxes<BLRect>(a, BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD, true, cw, dir, mx, add); else boxes<BLRectI>(a, BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTI, true, cw, dir, mx, add); break;
      case 13: case 14: { // arc, chord, pie
        BLArc ar(coord(r), coord(r), r.dbl(1, 60), r.dbl(1, 60), r.dbl(-8, 8), r.dbl(-8, 8)); uint32_t g = uint32_t(r.below(3)); VH_OK(P.add_geometry(g == 0 ? BL_GEOMETRY_TYPE_ARC : g == 1 ? BL_GEOMETRY_TYPE_CHORD : BL_GEOMETRY_TYPE_PIE, &ar, mx, dir), "add_geometry(arc)"); arc = true; size_t n = P.size(); const uint8_t* c = P.command_data(); const BLPoint* v = P.vertex_data();
        size_t f = old; VH_CHECK(n > old, "arc-empty", "nothing was added"); VH_CHECK(c[f] == 0, "arc-move", "first command %u", c[f]);
        if (g == 2) { BLPoint cc(ar.cx, ar.cy); if (mx) cc = mapm(t, cc); VH_CHECK(fabs(v[f].x - cc.x) + fabs(v[f].y - cc.y) < 1e-6, "pie-center", "pie starts at (%g,%g)", v[f].x, v[f].y); f++; VH_CHECK(f < n && c[f] == 1, "pie-line", "no line to the arc"); }
        size_t e = n; if (g) { VH_CHECK(c[n - 1] == BL_PATH_CMD_CLOSE, "arc-close", "not closed"); e--; }
        check_arc(P, f, f + 1, e, BLPoint(ar.cx, ar.cy), ar.rx, ar.ry, 0, ar.start, cw ? ar.sweep : -ar.sweep, mx, "add_geometry(arc)");
        for (size_t i = old; i < n; i++) M.push_back({c[i], v[i]}); break; }
      default: { if (a == b && !cw) {} std::vector<std::pair<size_t, size_t>> figs; Model src = m[b]; bool wf = well_formed(src, 0, src.size(), &figs); if (!wf && (geo || !cw)) return; VH_OK(P.add_geometry(BL_GEOMETRY_TYPE_PATH, &p[b], mx, dir), "add_geometry(path)"); tol = 1e-9;
        if (cw) add = src; else { std::reverse(figs.begin(), figs.end()); for (auto& f : figs) reverse_figure(src, f.first, f.second, add); } break; }
    }
    if (!arc) { if (mx) for (auto& x : add) if (is_point(x.c)) x.v = mapm(t, x.v); M.insert(M.end(), add.begin(), add.end()); }
    static const char* names[] = {"circle", "ellipse", "round rect", "round rect", "line", "triangle", "polyline", "polyline int", "polygon", "polygon int", "boxes", "boxes int", "rects", "arc", "arc", "path"};
    char what[48]; snprintf(what, sizeof what, "add_geometry(%s, dir %u%s)", names[k], dir, mx ? ", transformed" : ""); compare(P, M, what, old, tol); count("geometries");
  }
};

static void case_p05(Rng& rng) {
  P05 x(rng, false); int n = int(rng.range(5, 60)); bool invalid_geo = rng.chance(1, 20);
  for (int i = 0; i < n; i++) x.step();
  if (invalid_geo) { int dummy[4] = {}; VH_CHECK(x.p[0].add_geometry(BLGeometryType(BL_GEOMETRY_TYPE_MAX_VALUE + 1 + rng.below(100)), dummy) == BL_ERROR_INVALID_VALUE, "geometry-type", "invalid geometry type accepted"); compare(x.p[0], x.m[0], "rejected add_geometry"); count("rejected"); }
  for (int i = 0; i < 3; i++) compare(x.p[i], x.m[i], "final");
  distinct(x.h.h); sample("%d operations, final sizes %zu %zu %zu", n, x.m[0].size(), x.m[1].size(), x.m[2].size());
}

// ---------------------------------------------------------------------------------------------------------------- P06
struct Seg { int kind; LD x[4], y[4], w; }; // kind: 1 line, 2 quad, 3 conic, 4 cubic
static void eval(const Seg& s, LD t, LD& x, LD& y) {
  LD u = 1 - t;
  switch (s.kind) {
    case 1: x = u * s.x[0] + t * s.x[1]; y = u * s.y[0] + t * s.y[1]; break;
    case 2: x = u*u*s.x[0] + 2*u*t*s.x[1] + t*t*s.x[2]; y = u*u*s.y[0] + 2*u*t*s.y[1] + t*t*s.y[2]; break;
    case 3: { LD d = u*u + 2*u*t*s.w + t*t; x = (u*u*s.x[0] + 2*u*t*s.w*s.x[1] + t*t*s.x[2]) / d; y = (u*u*s.y[0] + 2*u*t*s.w*s.y[1] + t*t*s.y[2]) / d; break; }
    default: x = u*u*u*s.x[0] + 3*u*u*t*s.x[1] + 3*u*t*t*s.x[2] + t*t*t*s.x[3]; y = u*u*u*s.y[0] + 3*u*u*t*s.y[1] + 3*u*t*t*s.y[2] + t*t*t*s.y[3];
  }
}
struct Geo { std::vector<Seg> segs; bool conic = false; BLBox cb, bb; bool any = false; uint32_t flags = 0; };
static void collect(const Model& m, Geo& g) {
  uint32_t moves = 0; BLPoint start(0, 0), prev(0, 0); bool open = false; LD inf = HUGE_VALL; LD b[4] = {inf, inf, -inf, -inf}, c[4] = {inf, inf, -inf, -inf};
  auto ad = [&](LD* q, LD x, LD y) { q[0] = std::min(q[0], x); q[1] = std::min(q[1], y); q[2] = std::max(q[2], x); q[3] = std::max(q[3], y); };
  auto line = [&](BLPoint p, BLPoint q) { Seg s{}; s.kind = 1; s.x[0] = p.x; s.y[0] = p.y; s.x[1] = q.x; s.y[1] = q.y; g.segs.push_back(s); };
  for (size_t i = 0; i < m.size();) {
    uint8_t cm = m[i].c; size_t n = 1; Seg s{}; s.x[0] = prev.x; s.y[0] = prev.y;
    if (cm == 0) { if (open) line(prev, start); start = prev = m[i].v; moves++; open = true; }
    else if (cm == 1) { line(prev, m[i].v); prev = m[i].v; }
    else if (cm == 5) { if (open) line(prev, start); open = false; }
    else { s.kind = cm; n = cm == 2 ? 2 : 3; g.flags |= cm == 2 ? BL_PATH_FLAG_QUADS : cm == 3 ? BL_PATH_FLAG_CONICS : BL_PATH_FLAG_CUBICS; if (cm == 3) g.conic = true;
      if (cm == 2) { s.x[1] = m[i].v.x; s.y[1] = m[i].v.y; s.x[2] = m[i+1].v.x; s.y[2] = m[i+1].v.y; } else if (cm == 3) { s.w = m[i+1].v.x; s.x[1] = m[i].v.x; s.y[1] = m[i].v.y; s.x[2] = m[i+2].v.x; s.y[2] = m[i+2].v.y; } else for (int k = 0; k < 3; k++) { s.x[k+1] = m[i+k].v.x; s.y[k+1] = m[i+k].v.y; }
      g.segs.push_back(s); prev = m[i + n - 1].v;
      // Extremes by dense sampling refined by golden section (each coordinate).
      const int N = 64; LD sx[N + 1], sy[N + 1]; for (int k = 0; k <= N; k++) eval(s, LD(k) / N, sx[k], sy[k]);
      for (int co = 0; co < 2; co++) for (int sg = -1; sg <= 1; sg += 2) { const LD* sv = co ? sy : sx; LD top = -inf; for (int k = 0; k <= N; k++) top = std::max(top, sg * sv[k]); LD ext = fabsl(sv[0]) + 1; for (int k = 0; k <= N; k++) ext = std::max(ext, fabsl(sv[k]));
        for (int k = 0; k <= N; k++) { if (sg * sv[k] < top - ext * 0.02L || (k && sg * sv[k - 1] > sg * sv[k]) || (k < N && sg * sv[k + 1] > sg * sv[k])) continue;
        LD lo = LD(std::max(0, k - 1)) / N, hi = LD(std::min(N, k + 1)) / N; for (int it = 0; it < 45; it++) { LD a1 = lo + (hi - lo) / 3, a2 = hi - (hi - lo) / 3, x1, y1, x2, y2; eval(s, a1, x1, y1); eval(s, a2, x2, y2); if (sg * (co ? y1 : x1) < sg * (co ? y2 : x2)) lo = a1; else hi = a2; }
        LD x, y; eval(s, (lo + hi) / 2, x, y); ad(b, x, y); ad(b, sx[k], sy[k]); } } }
    for (size_t k = 0; k < n; k++) if (is_point(m[i + k].c)) { ad(c, m[i + k].v.x, m[i + k].v.y); if (m[i + k].c <= 1) ad(b, m[i + k].v.x, m[i + k].v.y); g.any = true; }
    i += n;
  }
  if (open) line(prev, start);
  if (moves > 1) g.flags |= BL_PATH_FLAG_MULTIPLE;
  g.bb = BLBox(double(b[0]), double(b[1]), double(b[2]), double(b[3])); g.cb = BLBox(double(c[0]), double(c[1]), double(c[2]), double(c[3]));
}
static bool box_near(const BLBox& a, const BLBox& b, double tol) { return fabs(a.x0 - b.x0) <= tol && fabs(a.y0 - b.y0) <= tol && fabs(a.x1 - b.x1) <= tol && fabs(a.y1 - b.y1) <= tol; }

static void check_queries(const BLPath& P, const Model& M, Rng& r) {
  bool empty_ok = true; (void)empty_ok; bool ok = P05::valid(M); BLBox cb(7, 7, 7, 7), bb(7, 7, 7, 7); uint32_t fl = 0;
  BLResult r0 = P.get_info_flags(&fl), r1 = P.get_control_box(&cb), r2 = P.get_bounding_box(&bb);
  VH_CHECK((r0 == BL_SUCCESS) == ok && r1 == r0 && r2 == r0, "info-result", "results %u %u %u, path valid %d: %s", r0, r1, r2, ok, path_str(P).c_str());
  if (!ok) { VH_CHECK(fl & BL_PATH_FLAG_INVALID, "info-invalid", "flags %x", fl); return; }
  if (!well_formed(M, 0, M.size(), nullptr, true)) { count("irregular paths"); for (int k = 0; k < 3; k++) { (void)P.hit_test(pt(r), BL_FILL_RULE_NON_ZERO); BLRange rg; (void)P.get_figure_range(r.below(M.size() + 1), &rg); } return; }
  Geo g; collect(M, g); double sc = 1; if (g.any) sc = std::max({fabs(g.cb.x0), fabs(g.cb.y0), fabs(g.cb.x1), fabs(g.cb.y1), 1.0});
  if (!g.any) { VH_CHECK(fl & BL_PATH_FLAG_EMPTY, "info-empty", "flags %x", fl); VH_CHECK(cb == BLBox() && bb == BLBox(), "info-empty-box", "boxes of an empty path"); }
  else { VH_CHECK(fl == g.flags, "info-flags", "flags %x, expected %x: %s", fl, g.flags, path_str(P).c_str());
    VH_CHECK(box_near(cb, g.cb, 1e-9 * sc), "control-box", "(%.12g %.12g %.12g %.12g), vertices span (%.12g %.12g %.12g %.12g): %s", cb.x0, cb.y0, cb.x1, cb.y1, g.cb.x0, g.cb.y0, g.cb.x1, g.cb.y1, path_str(P).c_str());
    VH_CHECK(box_near(bb, g.bb, 1e-7 * sc), "bounding-box", "(%.12g %.12g %.12g %.12g), curve spans (%.12g %.12g %.12g %.12g): %s", bb.x0, bb.y0, bb.x1, bb.y1, g.bb.x0, g.bb.y0, g.bb.x1, g.bb.y1, path_str(P).c_str()); count("boxes"); }
  // Vertex queries.
  for (int k = 0; k < 3 && !M.empty(); k++) {
    size_t i = r.below(M.size() + 1); BLRange rg; BLResult res = P.get_figure_range(i, &rg);
    if (i >= M.size()) VH_CHECK(res != BL_SUCCESS, "figure-range-reject", "index %zu of %zu accepted", i, M.size());
    else { size_t s = i, e = i + 1; while (s > 0 && M[s].c != 0 && M[s - 1].c != 5) s--; while (e < M.size() && M[e].c != 0 && M[e - 1].c != 5) e++; if (M[i].c == 5) e = i + 1;
      bool wf = well_formed(M, 0, M.size()); if (wf) VH_CHECK(res == BL_SUCCESS && rg.start == s && rg.end == e, "figure-range", "index %zu: [%zu,%zu), expected [%zu,%zu): %s", i, rg.start, rg.end, s, e, path_str(P).c_str()); }
  }
  { BLPoint lv(9, 9); BLResult res = P.get_last_vertex(&lv); bool has = false; BLPoint ex(0, 0); if (!M.empty()) { if (M.back().c != 5) { has = true; ex = M.back().v; } else for (size_t i = M.size() - 1; i-- > 0;) { if (M[i].c == 5) break; if (M[i].c == 0) { has = true; ex = M[i].v; break; } } }
    VH_CHECK((res == BL_SUCCESS) == has && (!has || (same_d(lv.x, ex.x) && same_d(lv.y, ex.y))), "last-vertex", "result %u (%g,%g), expected %d (%g,%g)", res, lv.x, lv.y, has, ex.x, ex.y); }
  for (int k = 0; k < 2; k++) {
    BLPoint q(r.dbl(-200, 500), r.dbl(-200, 500)); double maxd = r.chance(1, 2) ? 0 : r.chance(1, 6) ? HUGE_VAL : r.dbl(1, 300); size_t idx; double d; BLResult res = P.get_closest_vertex(q, maxd, &idx, &d); bool lim = maxd > 0 && maxd < HUGE_VAL; LD best = HUGE_VALL; for (auto& x : M) if (is_point(x.c)) best = std::min(best, hypotl((LD)x.v.x - q.x, (LD)x.v.y - q.y));
    bool found = best < HUGE_VALL && (!lim || best < maxd);
    if (lim && fabsl(best - maxd) < 1e-6) continue;
    if (!found) VH_CHECK(idx == SIZE_MAX && std::isnan(d), "closest-none", "index %zu distance %g, nothing is within %g", idx, d, maxd);
    else { VH_CHECK(res == BL_SUCCESS && idx < M.size() && is_point(M[idx].c) && fabsl(hypotl((LD)M[idx].v.x - q.x, (LD)M[idx].v.y - q.y) - best) < 1e-9 * (1 + best) && fabsl(d - best) < 1e-9 * (1 + best), "closest", "result %u index %zu distance %.12g, nearest %.12Lg (limit %g)", res, idx, d, best, maxd); count("closest vertex"); }
  }
  // Hit tests.
  if (!g.any || sc > 2e4) return;
  std::vector<std::array<LD, 4>> flat; const int N = 96;
  for (auto& s : g.segs) { int n = s.kind == 1 ? 1 : N; LD px = s.x[0], py = s.y[0]; for (int k = 1; k <= n; k++) { LD x, y; eval(s, LD(k) / n, x, y); flat.push_back({px, py, x, y}); px = x; py = y; } }
  double ext = std::max(g.cb.x1 - g.cb.x0, g.cb.y1 - g.cb.y0);
  for (int k = 0; k < 12; k++) {
    BLPoint q(r.dbl(g.bb.x0 - 5, g.bb.x1 + 5), r.dbl(g.bb.y0 - 5, g.bb.y1 + 5));
    if (k & 1) { size_t i = r.below(M.size()); if (M[i].c <= 1 && M[i].v.y >= -1e5) q.y = M[i].v.y; } // Level with a vertex.
    if (k == 2) { size_t i = r.below(M.size()); if (M[i].c <= 1) q.x = M[i].v.x; }
    LD ang = 0, mind = HUGE_VALL;
    for (auto& f : flat) { LD ax = f[0] - q.x, ay = f[1] - q.y, bx = f[2] - q.x, by = f[3] - q.y; ang += atan2l(ax * by - ay * bx, ax * bx + ay * by); LD dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l > 0 ? -(ax * dx + ay * dy) / l : 0; t = std::min<LD>(1, std::max<LD>(0, t)); mind = std::min(mind, hypotl(ax + t * dx, ay + t * dy)); }
    if (mind < ext * 2e-3 + 1e-3) continue;
    long wn = lroundl(ang / (2 * M_PIl)); if (fabsl(ang / (2 * M_PIl) - wn) > 0.02) continue;
    for (int rule = 0; rule < 2; rule++) { BLHitTest ht = P.hit_test(q, rule ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO); bool in = rule ? (wn & 1) : wn != 0;
      if (g.conic && ht == BL_HIT_TEST_INVALID) { report("hit-test-conic", "hit_test() of a path with a conic reports the path as invalid"); continue; }
      VH_CHECK(ht == (in ? BL_HIT_TEST_IN : BL_HIT_TEST_OUT), "hit-test", "point (%.17g,%.17g) rule %d: %u, winding number %ld: %s", q.x, q.y, rule, ht, wn, path_str(P).c_str()); count("hit tests"); if (in) count("hit tests inside"); }
  }
}
static void case_p06(Rng& rng) {
  P05 x(rng, true); int n = int(rng.range(4, 30));
  if (rng.chance(1, 4)) x.geo = false;
  for (int i = 0; i < n; i++) { x.step(); if (rng.chance(1, 4)) { int k = int(rng.below(3)); if (x.m[k].size() < 400) check_queries(x.p[k], x.m[k], rng); } }
  for (int k = 0; k < 3; k++) { if (x.m[k].size() < 400) check_queries(x.p[k], x.m[k], rng);
    for (int j = 0; j < 3; j++) { bool same = x.m[k].size() == x.m[j].size(); for (size_t i = 0; same && i < x.m[k].size(); i++) same = x.m[k][i].c == x.m[j][i].c && memcmp(&x.m[k][i].v, &x.m[j][i].v, sizeof(BLPoint)) == 0; VH_CHECK(x.p[k].equals(x.p[j]) == same, "equals", "equals is %d, contents equal %d", x.p[k].equals(x.p[j]), same); } 
    BLPath copy; copy.assign_deep(x.p[k]); VH_CHECK(copy.equals(x.p[k]), "equals-copy", "a deep copy differs");
    if (!copy.is_empty()) { size_t i = rng.below(copy.size()); BLPoint v = copy.vertex_data()[i]; copy.set_vertex_at(i, BL_PATH_CMD_PRESERVE, v.x + 1, v.y); VH_CHECK(std::isnan(v.x) || !copy.equals(x.p[k]), "equals-changed", "a changed copy is equal"); } }
  distinct(x.h.h); sample("%d operations, final sizes %zu %zu %zu", n, x.m[0].size(), x.m[1].size(), x.m[2].size());
}

// ---------------------------------------------------------------------------------------------------------------- P38
struct LM { LD a[6]; };
static LM mul(const LM& x, const LM& y) { // row vectors: x applied first
  return LM{{x.a[0]*y.a[0] + x.a[1]*y.a[2], x.a[0]*y.a[1] + x.a[1]*y.a[3], x.a[2]*y.a[0] + x.a[3]*y.a[2], x.a[2]*y.a[1] + x.a[3]*y.a[3], x.a[4]*y.a[0] + x.a[5]*y.a[2] + y.a[4], x.a[4]*y.a[1] + x.a[5]*y.a[3] + y.a[5]}};
}
static LM mulabs(const LM& x, const LM& y) { LM u, v; for (int i = 0; i < 6; i++) u.a[i] = fabsl(x.a[i]), v.a[i] = fabsl(y.a[i]); return mul(u, v); }
static LM lm(const BLMatrix2D& m) { LM r; for (int i = 0; i < 6; i++) r.a[i] = m.m[i]; return r; }
static void near_lm(const BLMatrix2D& m, const LM& e, const LM& mag, const char* what) { for (int i = 0; i < 6; i++) VH_CHECK(fabsl(m.m[i] - e.a[i]) <= 1e-13L * mag.a[i] + 1e-300L, "matrix", "%s: m[%d] is %.17g, algebra gives %.17Lg", what, i, m.m[i], e.a[i]); }
static double mval(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return r.range(-3, 3); case 3: return r.dbl(-1, 1) * pow(10, double(r.range(-6, 6))); default: return r.dbl(-10, 10); } }
static BLMatrix2D any_matrix(Rng& r) { BLMatrix2D m = rnd_matrix(r); if (r.chance(1, 2)) for (int i = 0; i < 6; i++) m.m[i] = mval(r); return m; }
static void case_p38(Rng& r) {
  Hash h; BLMatrix2D m = any_matrix(r);
  for (int it = 0; it < 6; it++) {
    uint32_t op = uint32_t(r.below(14)); BLMatrix2D before = m, b = any_matrix(r); double x = mval(r), y = mval(r), ang = r.dbl(-7, 7), px = mval(r), py = mval(r); LM A = lm(m), I{{1, 0, 0, 1, 0, 0}}, B = I; bool post = op >= 8; BLResult res = BL_SUCCESS;
    LD c = cosl(ang), s = sinl(ang); LM rot{{c, s, -s, c, 0, 0}}, rotp{{c, s, -s, c, px - c * px + s * py, py - s * px - c * py}}; h.add(op).add(x).add(ang); double sx = r.dbl(-1.4, 1.4), sy = r.dbl(-1.4, 1.4); LM slack{{0,0,0,0,0,0}};
    switch (op) {
      case 0: m.reset(); A = I; break; case 1: m.reset(b); A = lm(b); break;
      case 2: case 8: B.a[4] = x; B.a[5] = y; res = post ? m.post_translate(x, y) : m.translate(x, y); break;
      case 3: case 9: B.a[0] = x; B.a[3] = y; res = post ? m.post_scale(x, y) : m.scale(x, y); break;
      case 4: case 10: B.a[1] = tanl(sy); B.a[2] = tanl(sx); res = post ? m.post_skew(sx, sy) : m.skew(sx, sy); break;
      case 5: case 11: B = rot; res = post ? m.post_rotate(ang) : m.rotate(ang); break;
      case 6: case 12: B = rotp; for (int k = 4; k < 6; k++) slack.a[k] = fabs(px) + fabs(py); res = post ? m.post_rotate(ang, px, py) : m.rotate(ang, px, py); break;
      default: { bool self = r.chance(1, 8); if (self) b = m; B = lm(b); res = post ? m.post_transform(self ? m : b) : m.transform(self ? m : b); break; }
    }
    VH_CHECK(res == BL_SUCCESS, "matrix-result", "operation %u returned %u", op, res);
    LM e = post ? mul(A, B) : mul(B, A), mag; { LM Bs = B; for (int k = 0; k < 6; k++) Bs.a[k] = fabsl(B.a[k]) + slack.a[k]; mag = post ? mulabs(A, Bs) : mulabs(Bs, A); for (int k = 0; k < 6; k++) mag.a[k] += slack.a[k]; }
    if (op >= 4 && op != 7 && op != 13) for (int k = 0; k < 6; k++) mag.a[k] += 4 * (fabsl(A.a[0]) + fabsl(A.a[1]) + fabsl(A.a[2]) + fabsl(A.a[3]) + (post ? fabsl(A.a[4]) + fabsl(A.a[5]) : 0));
    near_lm(m, e, mag, "composition"); count("matrix ops");
    // The same through the C API.
    if (r.chance(1, 3) && op >= 2) { double d[3] = {x, y, 0}; if (op == 4 || op == 10) d[0] = sx, d[1] = sy; if (op == 5 || op == 6 || op == 11 || op == 12) { d[0] = ang; d[1] = px; d[2] = py; } BLMatrix2D m2 = before; const void* data = (op == 7 || op == 13) ? (const void*)&b : (const void*)d; VH_OK(bl_matrix2d_apply_op(&m2, BLTransformOp(op), data), "apply_op"); near_lm(m2, e, mag, "apply_op"); }
  }
  // Constructors.
  { double ang = r.dbl(-7, 7), px = mval(r), py = mval(r); LD c = cosl(ang), s = sinl(ang); LM one{{1, 1, 1, 1, 1, 1}}, mg{{1, 1, 1, 1, 2 * fabsl(px) + 2 * fabsl(py) + 1, 2 * fabsl(px) + 2 * fabsl(py) + 1}};
    near_lm(BLMatrix2D::make_rotation(ang), LM{{c, s, -s, c, 0, 0}}, one, "make_rotation"); near_lm(BLMatrix2D::make_rotation(ang, px, py), LM{{c, s, -s, c, px - c * px + s * py, py - s * px - c * py}}, mg, "make_rotation(origin)");
    double sx = r.dbl(-1.4, 1.4), sy = r.dbl(-1.4, 1.4); near_lm(BLMatrix2D::make_skewing(sx, sy), LM{{1, tanl(sy), tanl(sx), 1, 0, 0}}, LM{{1, 10, 10, 1, 1, 1}}, "make_skewing"); near_lm(BLMatrix2D::make_scaling(px, py), LM{{px, 0, 0, py, 0, 0}}, mg, "make_scaling"); near_lm(BLMatrix2D::make_translation(px, py), LM{{1, 0, 0, 1, px, py}}, mg, "make_translation"); 
    BLMatrix2D t; bl_matrix2d_set_identity(&t); VH_CHECK(t == BLMatrix2D::make_identity(), "identity", "wrong"); bl_matrix2d_set_scaling(&t, px, py); VH_CHECK(t == BLMatrix2D::make_scaling(px, py), "set_scaling", "wrong"); bl_matrix2d_set_translation(&t, px, py); VH_CHECK(t == BLMatrix2D::make_translation(px, py), "set_translation", "wrong"); }
  BLMatrix2D q = r.chance(1, 2) ? m : any_matrix(r); if (r.chance(1, 12)) { static const double odd[] = {HUGE_VAL, -HUGE_VAL, 1e308, 5e-324, 0}; q.m[r.below(6)] = r.chance(1, 4) ? kNaN : r.pick(odd); }
  bool fin = true; for (double v : q.m) fin &= std::isfinite(v);
  // Classification.
  BLTransformType ty = q.type(); LD det = (LD)q.m00 * q.m11 - (LD)q.m01 * q.m10; h.add(uint32_t(ty));
  bool diag = q.m01 == 0 && q.m10 == 0, anti = q.m00 == 0 && q.m11 == 0;
  switch (ty) {
    case BL_TRANSFORM_TYPE_IDENTITY: VH_CHECK(q == BLMatrix2D::make_identity() || (diag && q.m00 == 1 && q.m11 == 1 && q.m20 == 0 && q.m21 == 0), "type", "claims identity"); break;
    case BL_TRANSFORM_TYPE_TRANSLATE: VH_CHECK(diag && q.m00 == 1 && q.m11 == 1, "type", "claims translation"); break;
    case BL_TRANSFORM_TYPE_SCALE: VH_CHECK(diag, "type", "claims scale"); break;
    case BL_TRANSFORM_TYPE_SWAP: VH_CHECK(anti, "type", "claims swap"); break;
    case BL_TRANSFORM_TYPE_AFFINE: break;
    case BL_TRANSFORM_TYPE_INVALID: VH_CHECK(!fin || det == 0 || fabsl(det) > 1e300L || fabsl(det) < 1e-300L, "type", "a regular matrix (%g %g %g %g %g %g) is classified as invalid", q.m00, q.m01, q.m10, q.m11, q.m20, q.m21); break;
    default: fail("type", "type %u", ty);
  }
  if (!fin) VH_CHECK(ty == BL_TRANSFORM_TYPE_INVALID, "type-nonfinite", "a non-finite matrix has type %u", ty);
  count("types");
  bool moderate = fin; for (double v : q.m) moderate &= fabs(v) < 1e100;
  // Inversion.
  { BLMatrix2D inv(9, 9, 9, 9, 9, 9), keep = inv; BLResult res = BLMatrix2D::invert(inv, q); double d = q.determinant();
    if (d == 0 || !std::isfinite(d)) { VH_CHECK(res != BL_SUCCESS, "invert-singular", "determinant %g, result %u", d, res); VH_CHECK(inv == keep, "invert-rejected", "failed inversion changed the result"); BLMatrix2D z = q; VH_CHECK(z.invert() != BL_SUCCESS && memcmp(&z, &q, sizeof z) == 0, "invert-inplace", "failed inversion changed the matrix"); count("singular"); }
    else { VH_CHECK(res == BL_SUCCESS, "invert", "determinant %g, result %u", d, res); if (moderate && fabs(d) > 1e-200 && fabs(d) < 1e200) { LM p = mul(lm(q), lm(inv)), mg = mulabs(lm(q), lm(inv)); LD am = fabsl((LD)q.m00 * q.m11) + fabsl((LD)q.m01 * q.m10), cond = am / fabsl(det);
        for (int k = 0; k < 6; k++) VH_CHECK(fabsl(p.a[k] - (k == 0 || k == 3)) <= 1e-12L * (mg.a[k] + 1) * (1 + cond), "invert-product", "matrix * inverse has [%d] = %.17Lg", k, p.a[k]); BLMatrix2D z = q; VH_OK(z.invert(), "invert in place"); VH_CHECK(memcmp(&z, &inv, sizeof z) == 0, "invert-inplace", "in-place inversion differs"); count("inversions"); } } }
  // Mapping of points, vectors and arrays (any alignment, in place or not).
  if (moderate) { size_t n = r.skew(300); std::vector<double> buf(2 * n + 8, 12345.0), out(2 * n + 8, 54321.0); size_t o1 = r.below(3), o2 = r.below(3); BLPoint* src = (BLPoint*)(buf.data() + 1 + o1); BLPoint* dst = (BLPoint*)(out.data() + 1 + o2); bool inplace = r.chance(1, 3); for (size_t i = 0; i < n; i++) src[i] = BLPoint(mval(r), mval(r)); std::vector<double> orig = buf; const BLPoint* S = (const BLPoint*)(orig.data() + 1 + o1);
    if (inplace) dst = src; BLResult res = bl_matrix2d_map_pointd_array(&q, dst, src, n);
    if (ty == BL_TRANSFORM_TYPE_INVALID && n >= 8) { (void)res; }
    else { VH_CHECK(res == BL_SUCCESS, "map-result", "result %u", res);
      for (size_t i = 0; i < n; i++) for (int k = 0; k < 2; k++) { LD e = (LD)S[i].x * q.m[k] + (LD)S[i].y * q.m[2 + k] + q.m[4 + k], mg = fabsl((LD)S[i].x * q.m[k]) + fabsl((LD)S[i].y * q.m[2 + k]) + fabsl(q.m[4 + k]); double got = k ? dst[i].y : dst[i].x; VH_CHECK(fabsl(got - e) <= 1e-14L * mg + 1e-300L, "map-array", "point %zu of %zu coordinate %d is %.17g, algebra gives %.17Lg (type %u)", i, n, k, got, e, ty); }
      if (!inplace) { double* d = (double*)dst; for (size_t i = 0; i < out.size(); i++) if (&out[i] < d || &out[i] >= d + 2 * n) VH_CHECK(out[i] == 54321.0, "map-outside", "a value outside of the array was written"); VH_CHECK(buf == orig, "map-source", "the source was changed"); }
      count("mapped arrays"); count("mapped points", n); }
    BLPoint p(mval(r), mval(r)), a = q.map_point(p), v = q.map_vector(p); LD ex = (LD)p.x * q.m00 + (LD)p.y * q.m10, ey = (LD)p.x * q.m01 + (LD)p.y * q.m11, mx = 1e-280L + fabsl((LD)p.x * q.m00) + fabsl((LD)p.y * q.m10) + fabsl(q.m20), my = 1e-280L + fabsl((LD)p.x * q.m01) + fabsl((LD)p.y * q.m11) + fabsl(q.m21);
    VH_CHECK(fabsl(a.x - (ex + q.m20)) <= 1e-14L * mx && fabsl(a.y - (ey + q.m21)) <= 1e-14L * my && fabsl(v.x - ex) <= 1e-14L * mx && fabsl(v.y - ey) <= 1e-14L * my, "map-point", "map_point or map_vector differs"); h.add(n); }
  distinct(h.h); sample("matrix (%g %g %g %g %g %g) type %u", q.m00, q.m01, q.m10, q.m11, q.m20, q.m21, ty);
}
void vh_init() {}
void vh_case(uint64_t, Rng& rng) { if (st().mode == "P05") case_p05(rng); else if (st().mode == "P06") case_p06(rng); else case_p38(rng); }
void vh_finish() {}
