// P27: pixels painted from gradients against the gradient evaluated in double precision.
struct P27Stop { double o; uint32_t c[4]; /* a, r, g, b: 16 bits each */ };
struct P27 { std::vector<P27Stop> s; int ext; Px lo, hi;
  void reset() { lo = Px{}; hi = Px{}; lo.a = 1e9; hi.a = -1e9; for (int i = 0; i < 3; i++) lo.c[i] = 1e9, hi.c[i] = -1e9; }
  // Adds what the ramp shows over [t0, t1], both within [0, 1].
  void ramp(double t0, double t1) {
    double mn[4], mx[4]; for (int i = 0; i < 4; i++) mn[i] = 1e9, mx[i] = -1e9; auto add = [&](const double* v) { for (int i = 0; i < 4; i++) mn[i] = std::min(mn[i], v[i]), mx[i] = std::max(mx[i], v[i]); };
    auto stop = [&](const P27Stop& q) { double v[4]; for (int i = 0; i < 4; i++) v[i] = q.c[i] / 65535.0 * 255; add(v); }; auto at = [&](double t) { if (t <= s[0].o) stop(s[0]); if (t >= s.back().o) stop(s.back()); for (size_t k = 0; k + 1 < s.size(); k++) if (s[k].o <= t && t <= s[k + 1].o) { double d = s[k + 1].o - s[k].o, f = d > 0 ? (t - s[k].o) / d : 0, v[4]; for (int i = 0; i < 4; i++) v[i] = (s[k].c[i] + (double(s[k + 1].c[i]) - s[k].c[i]) * f) / 65535.0 * 255.0; add(v); } };
    at(t0); at(t1); for (auto& q : s) if (q.o >= t0 && q.o <= t1) stop(q); lo.a = std::min(lo.a, mn[0]); hi.a = std::max(hi.a, mx[0]); for (int i = 0; i < 3; i++) { lo.c[i] = std::min(lo.c[i], mn[0] * mn[i + 1] / 255); hi.c[i] = std::max(hi.c[i], mx[0] * mx[i + 1] / 255); } }
  void range(double t0, double t1) {
    if (ext == 0) { ramp(std::min(1.0, std::max(0.0, t0)), std::min(1.0, std::max(0.0, t1))); return; } if (t1 - t0 >= 1) { ramp(0, 1); return; }
    for (double k = floor(t0); k <= t1; k++) { double a = std::max(t0 - k, 0.0), b = std::min(t1 - k, 1.0); if (ext == 2 && fmod(fabs(k), 2) == 1) ramp(1 - b, 1 - a); else ramp(a, b); } }
};
static void case_p27(Rng& r) {
  bool big = r.chance(1, 25); int w = 1 + int(r.skew(big ? 1200 : 70)), h = 1 + int(r.skew(big ? 200 : 50)); BLFormat f = rnd_format(r); Ext t; t.create(r, w, h, f); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) t.set(x, y, f == BL_FORMAT_XRGB32 ? 0xFF000000u : 0); t.snapshot();
  P27 m; m.ext = int(r.below(3)); int type = int(r.below(3)), quality = r.chance(1, 3) ? 2 : int(r.below(2)); bool dither = quality == 2 && f != BL_FORMAT_A8;
  // Stops, added in any order; equal offsets stay in the order they were added.
  int n = r.chance(1, 12) ? 1 : r.chance(1, 2) ? 2 : r.chance(1, 20) ? 2 + int(r.below(60)) : 2 + int(r.below(6)); bool ends = r.chance(1, 2), opaque = r.chance(1, 2), narrow = r.chance(1, 6); double nb = r.unit();
  for (int i = 0; i < n; i++) { P27Stop q; q.o = ends && i == 0 ? 0 : ends && i == n - 1 ? 1 : narrow ? std::min(1.0, nb + r.unit() * 0.01) : r.chance(1, 3) ? r.below(9) / 8.0 : r.unit(); for (int k = 0; k < 4; k++) q.c[k] = r.chance(1, 4) ? (r.chance(1, 2) ? 0xFFFF : 0) : uint32_t(r.below(256)) * 257; if (opaque) q.c[0] = 0xFFFF; if (r.chance(1, 12)) for (int k = 0; k < 4; k++) q.c[k] = uint32_t(r.below(65536)); if (i && r.chance(1, 10)) q = m.s.back(); m.s.push_back(q); }
  BLGradient g; g.set_type(BLGradientType(type)); std::vector<P27Stop> ord = m.s; bool sorted = r.chance(1, 2); if (sorted) std::stable_sort(ord.begin(), ord.end(), [](const P27Stop& a, const P27Stop& b) { return a.o < b.o; });
  for (auto& q : ord) VH_OK(g.add_stop(q.o, BLRgba64(q.c[1], q.c[2], q.c[3], q.c[0])), "stop"); m.s.clear(); for (auto& q : ord) { m.s.push_back(q); } std::stable_sort(m.s.begin(), m.s.end(), [](const P27Stop& a, const P27Stop& b) { return a.o < b.o; });
  VH_OK(g.set_extend_mode(BLExtendMode(m.ext)), "extend"); double S = r.chance(1, 5) ? exp(r.dbl(0, 8)) : 30; double v[6] = {r.dbl(-S, S + w), r.dbl(-S, S + h), r.dbl(-S, S + w), r.dbl(-S, S + h), 0, 0};
  if (type == 0) { if (r.chance(1, 4)) v[2] = v[0]; else if (r.chance(1, 4)) v[3] = v[1]; if (r.chance(1, 10)) { v[2] = v[0] + r.dbl(-1, 1); v[3] = v[1] + r.dbl(-1, 1); } VH_OK(g.set_values(BLLinearGradientValues(v[0], v[1], v[2], v[3])), "values"); }
  else if (type == 1) { v[4] = exp(r.dbl(0, log(S) + 1)); v[5] = r.chance(1, 2) ? 0 : v[4] * r.unit() * 0.9; double a = r.dbl(0, 2 * M_PI), d = r.chance(1, 3) ? 0 : (v[4] - v[5]) * r.unit(); v[2] = v[0] + cos(a) * d; v[3] = v[1] + sin(a) * d; VH_OK(g.set_values(BLRadialGradientValues(v[0], v[1], v[2], v[3], v[4], v[5])), "values"); }
  else { v[2] = r.chance(1, 3) ? 0 : r.dbl(-8, 8); v[3] = r.chance(2, 3) ? 1 : r.chance(1, 3) ? r.dbl(0.2, 5) : 1 + double(r.below(6)); VH_OK(g.set_values(BLConicGradientValues(v[0], v[1], v[2], v[3])), "values"); }
  auto mat = [&]() { BLMatrix2D q; q.reset(); switch (int(r.below(6))) { case 0: break; case 1: q.translate(r.dbl(-40, 40), r.dbl(-40, 40)); break; case 2: q.translate(r.dbl(-40, 40), r.dbl(-40, 40)); q.scale(exp(r.dbl(-2, 2)) * (r.chance(1, 3) ? -1 : 1), exp(r.dbl(-2, 2)) * (r.chance(1, 3) ? -1 : 1)); break; case 3: q.rotate(r.chance(1, 3) ? double(r.below(4)) * M_PI / 2 : r.dbl(-4, 4)); q.translate(r.dbl(-40, 40), r.dbl(-40, 40)); break;
      case 4: q.translate(r.dbl(-40, 40), r.dbl(-40, 40)); q.rotate(r.dbl(-4, 4)); q.scale(exp(r.dbl(-2, 2)), exp(r.dbl(-2, 2))); q.skew(r.dbl(-1, 1), r.dbl(-1, 1)); break; default: q.translate(r.dbl(0, w), r.dbl(0, h)); q.rotate(r.dbl(-4, 4)); q.scale(exp(r.dbl(-1, 1))); } return q; };
  BLMatrix2D id(1, 0, 0, 1, 0, 0), cm = r.chance(1, 2) ? id : mat(), pm = r.chance(1, 2) ? id : mat(), full; bool none = r.chance(1, 4), expl = !none && r.chance(1, 4); full = none ? pm : p26_mul(pm, cm); VH_OK(g.set_transform(pm), "gradient-transform");
  BLContextCreateInfo ci{}; ci.thread_count = r.chance(1, 8) ? 1 + unsigned(r.below(3)) : 0; BLContext c; VH_OK(c.begin(t.img, ci), "begin"); VH_OK(c.set_comp_op(r.chance(1, 2) ? BL_COMP_OP_SRC_COPY : BL_COMP_OP_SRC_OVER), "comp-op"); VH_OK(c.set_gradient_quality(BLGradientQuality(quality)), "quality"); VH_OK(c.set_transform(cm), "transform");
  if (!expl) { VH_OK(none ? c.set_fill_style(g, BL_CONTEXT_STYLE_TRANSFORM_MODE_NONE) : c.set_fill_style(g), "style"); VH_OK(c.set_transform(id), "transform"); }
  std::vector<uint8_t> drawn(size_t(w) * h, 0); auto mark = [&](int x0, int y0, int x1, int y1) { for (int y = std::max(0, y0); y < std::min(h, y1); y++) for (int xx = std::max(0, x0); xx < std::min(w, x1); xx++) drawn[size_t(y) * w + xx] = 1; }; int k = expl ? 0 : int(r.below(4)); BLResult x = BL_SUCCESS;
  if (k == 0) { x = expl ? c.fill_all(g) : c.fill_all(); mark(0, 0, w, h); } else if (k == 1) { BLRectI q(int(r.below(w)), int(r.below(h)), 1 + int(r.below(w)), 1 + int(r.below(h))); x = c.fill_rect(q); mark(q.x, q.y, q.x + q.w, q.y + q.h); }
  else if (k == 2) { Ext mk; int mx = int(r.below(w)), my = int(r.below(h)), mw = 1 + int(r.below(w - mx)), mh = 1 + int(r.below(h - my)); mk.create(r, mw, mh, BL_FORMAT_A8); for (int yy = 0; yy < mh; yy++) for (int xx = 0; xx < mw; xx++) { bool on = !r.chance(1, 5); mk.set(xx, yy, on ? 255 : 0); if (on) drawn[size_t(my + yy) * w + mx + xx] = 1; } x = c.fill_mask(BLPointI(mx, my), mk.img); VH_OK(c.flush(BL_CONTEXT_FLUSH_SYNC), "flush"); }
  else { BLPath q; int np = 2 + int(r.below(5)); for (int i = 0; i < np; i++) { int x0 = int(r.below(w)), y0 = int(r.below(h)), x1 = x0 + 1 + int(r.below(w)), y1 = y0 + 1 + int(r.below(h)); q.add_box(x0, y0, x1, y1); mark(x0, y0, x1, y1); } x = c.fill_path(q); }
  BLResult e = c.end(); std::string sd; for (size_t i = 0; i < m.s.size() && i < 9; i++) sd += Gen::fmt("%s%.9g:%02X%02X%02X%02X", i ? " " : "", m.s[i].o, m.s[i].c[0] >> 8, m.s[i].c[1] >> 8, m.s[i].c[2] >> 8, m.s[i].c[3] >> 8);
  char d[900]; snprintf(d, sizeof d, "%s gradient (%.17g,%.17g,%.17g,%.17g,%.17g,%.17g) extend %d quality %d, %d stops %s, matrix (%.17g,%.17g,%.17g,%.17g,%.17g,%.17g) on %dx%d format %d threads %u", type == 0 ? "linear" : type == 1 ? "radial" : "conic", v[0], v[1], v[2], v[3], v[4], v[5], m.ext, quality, n, sd.c_str(), full.m00, full.m01, full.m10, full.m11, full.m20, full.m21, w, h, int(f), ci.thread_count);
  if (st().verbose) { printf("case %llu: %s\n", (unsigned long long)g_case, d); fflush(stdout); }
  VH_CHECK(x == BL_SUCCESS && e == BL_SUCCESS, "error", "%s returned %u / %u", d, x, e); Hash hs; hs.add(full).add(v).add(type).add(n).add(m.ext).add(quality).add(w).add(h).add(int(f)); distinct(hs.h); sample("%s", d);
  bool solid = true; uint64_t M = 0xFF00; for (auto& q : m.s) for (int i = 0; i < 4; i++) if ((q.c[i] & M) != (m.s[0].c[i] & M)) solid = false;
  double a = full.m00, b = full.m01, cc = full.m10, dd = full.m11, det = a * dd - b * cc; if (!(fabs(det) > 1e-6)) { count("singular"); return; } double i00 = dd / det, i01 = -b / det, i10 = -cc / det, i11 = a / det; int N = 256; // The look-up table has at least this many entries.
  double dx = v[2] - v[0], dy = v[3] - v[1]; double N_max = 1024; if (type == 0 && !(hypot(dx, dy) > 1e-3)) { count("degenerate"); return; } double ga = 0, dr = 0, dpx = 0, dpy = 0; if (type == 1) { dr = v[4] - v[5]; dpx = v[0] - v[2]; dpy = v[1] - v[3]; ga = dr * dr - dpx * dpx - dpy * dpy; if (!(dr - hypot(dpx, dpy) > 0.5001)) { count("focal point on the border"); return; } }
  uint64_t judged = 0, tight = 0, skipped = 0; bool fine = false; for (auto& q : m.s) for (int i = 0; i < 4; i++) if (q.c[i] % 257) fine = true; // The table is built from the high bytes.
  for (int y = 0; y < h; y++) for (int xx = 0; xx < w; xx++) {
    if (!drawn[size_t(y) * w + xx]) { VH_CHECK((t.get(xx, y) & (f == BL_FORMAT_XRGB32 ? 0xFFFFFFu : 0xFFFFFFFFu)) == 0, "outside", "%s: pixel (%d,%d) isn't covered", d, xx, y); continue; }
    double px = xx + 0.5 - full.m20, py = y + 0.5 - full.m21, u = px * i00 + py * i10, q = px * i01 + py * i11, tt = 0, del = 2.5 / N; m.reset();
    if (solid) { m.ramp(0, 1); tt = 0; }
    else if (type == 0) { tt = ((u - v[0]) * dx + (q - v[1]) * dy) / (dx * dx + dy * dy); del += fabs(tt) * 1e-9; if (fabs(tt) * N_max > 1e9) { skipped++; continue; } m.range(tt - del, tt + del); }
    else if (type == 1) {
      double X = u - v[2], Y = q - v[3], B = 2 * (dr * v[5] + X * dpx + Y * dpy), C = X * X + Y * Y - v[5] * v[5], D = B * B + 4 * ga * C; 
      // The terms the fetcher adds up in single precision bound its rounding error.
      double X0 = X - i00 * xx, Y0 = Y - i01 * xx, B0 = 2 * (dr * v[5] + X0 * dpx + Y0 * dpy), C0 = X0 * X0 + Y0 * Y0 - v[5] * v[5], D0 = B0 * B0 + 4 * ga * C0, b1 = 2 * (i00 * dpx + i01 * dpy), dd2 = b1 * b1 + 4 * ga * (i00 * i00 + i01 * i01), dd1 = 2 * b1 * B0 + 8 * ga * (X0 * i00 + Y0 * i01);
      double E = 4e-7 * (fabs(D0) + fabs(dd1 * xx) + fabs(dd2 * xx * xx)), lo = sqrt(std::max(0.0, D - E)), hi = sqrt(std::max(0.0, D + E)), eb = 4e-7 * (fabs(B0) + fabs(b1 * xx) + hi); if (D < E) { lo = 0; hi = sqrt(std::max(hi * hi, E)); }
      double t0 = (-B + lo - eb) / (2 * ga), t1 = (-B + hi + eb) / (2 * ga); tt = (t0 + t1) / 2; if (fabs(tt) * N_max > 1e9 || !(t1 - t0 < 1)) { skipped++; continue; } m.range(t0 - del, t1 + del); }
    else { double X = u - v[0], Y = q - v[1], R = hypot(X, Y), er = 1e-6 * (fabs(i00 * xx) + fabs(i00 * w) + fabs(X) + fabs(Y) + 1e-3) / std::max(R, 1e-9); if (er > 0.1) { skipped++; continue; } double ang = atan2(Y, X) - v[2]; ang /= 2 * M_PI; ang -= floor(ang); del += (er + 1e-5) * v[3]; int ke = m.ext; m.ext = 1;
      tt = ang * v[3]; m.range(tt - del, tt + del); if (v[3] != floor(v[3])) { double an2 = atan2(Y, X) / (2 * M_PI); (void)an2; skipped++; m.ext = ke; continue; } m.ext = ke; }
    Px R = px_of(t.get(xx, y), f); judged++; double tol = (dither ? 2.3 : 1.8) + (fine ? 1 : 0); bool ok = true; if (f != BL_FORMAT_XRGB32) ok = ok && R.a >= m.lo.a - tol && R.a <= m.hi.a + tol; if (f != BL_FORMAT_A8) for (int i = 0; i < 3; i++) ok = ok && R.c[i] >= m.lo.c[i] - tol && R.c[i] <= m.hi.c[i] + tol; if (m.hi.a - m.lo.a < 20 && m.hi.c[0] - m.lo.c[0] < 20 && m.hi.c[1] - m.lo.c[1] < 20 && m.hi.c[2] - m.lo.c[2] < 20) tight++;
    VH_CHECK(ok, "color", "%s: pixel (%d,%d) is %08X, the gradient at t = %.9g is alpha %.2f..%.2f red %.2f..%.2f green %.2f..%.2f blue %.2f..%.2f", d, xx, y, t.get(xx, y), tt, m.lo.a, m.hi.a, m.lo.c[0], m.hi.c[0], m.lo.c[1], m.hi.c[1], m.lo.c[2], m.hi.c[2]); }
  count("pixels judged", judged); count("pixels within 20 levels", tight); count("pixels skipped", skipped); evals(judged); if (judged) { count(solid ? "solid" : type == 0 ? "linear" : type == 1 ? "radial" : "conic"); if (dither) count("dithered"); if (m.ext) count("repeated or reflected"); }
}
