// P26: pixels painted from images against texel sampling in double precision.
static int64_t p26_ext(int64_t i, int64_t n, int mode) { if (mode == 0) return std::max<int64_t>(0, std::min(i, n - 1)); if (mode == 1) { i %= n; return i < 0 ? i + n : i; } i %= 2 * n; if (i < 0) i += 2 * n; return i < n ? i : 2 * n - 1 - i; }
// Applies a first, then b.
static BLMatrix2D p26_mul(const BLMatrix2D& a, const BLMatrix2D& b) { return BLMatrix2D(a.m00 * b.m00 + a.m01 * b.m10, a.m00 * b.m01 + a.m01 * b.m11, a.m10 * b.m00 + a.m11 * b.m10, a.m10 * b.m01 + a.m11 * b.m11, a.m20 * b.m00 + a.m21 * b.m10 + b.m20, a.m20 * b.m01 + a.m21 * b.m11 + b.m21); }
static void case_p26(Rng& r) {
  bool big = r.chance(1, 30); int w = 1 + int(r.skew(big ? 900 : 70)), h = 1 + int(r.skew(big ? 200 : 50)); BLFormat f = rnd_format(r), sf = rnd_format(r); Ext t; t.create(r, w, h, f); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) t.set(x, y, f == BL_FORMAT_XRGB32 ? 0xFF000000u : 0); t.snapshot();
  Ext im; int iw = 1 + int(r.skew(r.chance(1, 10) ? 300 : 20)), ih = 1 + int(r.skew(r.chance(1, 10) ? 300 : 20)); im.create(r, iw, ih, sf); fill_random(r, im); bool smooth = r.chance(1, 3);
  if (smooth) for (int y = 0; y < ih; y++) for (int x = 0; x < iw; x++) { uint32_t a = uint32_t(128 + 100 * sin(x * 0.3) * cos(y * 0.2)), b = uint32_t(a * (x + 1) / (iw + 1)), c = uint32_t(a * (y + 1) / (ih + 1)); im.set(x, y, sf == BL_FORMAT_A8 ? a : (sf == BL_FORMAT_XRGB32 ? 255u : a) << 24 | b << 16 | c << 8 | (a - b)); } im.snapshot();
  bool bil = r.chance(1, 2), blitted = r.chance(1, 3); int ext = int(r.below(9)); static const int EX[9] = {0, 1, 2, 0, 0, 1, 1, 2, 2}, EY[9] = {0, 1, 2, 1, 2, 0, 2, 0, 1};
  BLRectI area(0, 0, iw, ih); bool has_area = r.chance(1, 2); if (has_area) { area.x = int(r.below(iw)); area.y = int(r.below(ih)); area.w = int(r.range(1, iw - area.x)); area.h = int(r.range(1, ih - area.y)); }
  // Transforms: the context's and (for patterns) the pattern's own.
  auto mat = [&](bool simple) { BLMatrix2D m; m.reset(); double far = r.chance(1, 6) ? pow(10, r.dbl(2, 6.5)) : 40; int k = int(r.below(simple ? 3 : 7)); switch (k) { case 0: break; case 1: m.translate(floor(r.dbl(-far, far)), floor(r.dbl(-far, far))); break; case 2: m.translate(r.dbl(-far, far), r.dbl(-far, far)); if (r.chance(1, 3)) m.m20 = floor(m.m20); else if (r.chance(1, 3)) m.m21 = floor(m.m21); break;
      case 3: m.translate(r.dbl(-40, 40), r.dbl(-40, 40)); m.scale(exp(r.dbl(-2, 2)) * (r.chance(1, 3) ? -1 : 1), exp(r.dbl(-2, 2)) * (r.chance(1, 3) ? -1 : 1)); break; case 4: m.rotate(r.chance(1, 3) ? double(r.below(4)) * M_PI / 2 : r.dbl(-4, 4)); m.translate(r.dbl(-40, 40), r.dbl(-40, 40)); break;
      case 5: m.translate(r.dbl(-far, far), r.dbl(-far, far)); m.rotate(r.dbl(-4, 4)); m.scale(exp(r.dbl(-3, 3))); m.skew(r.dbl(-1, 1), r.dbl(-1, 1)); break; default: m.scale(r.chance(1, 2) ? double(1 + r.below(4)) : 1.0 / double(1 + r.below(4)), r.chance(1, 2) ? double(1 + r.below(4)) : 1); m.translate(double(r.range(-20, 20)), double(r.range(-20, 20))); } return m; };
  BLMatrix2D cm = r.chance(1, 2) ? BLMatrix2D(1, 0, 0, 1, 0, 0) : mat(false), pm = blitted || r.chance(1, 4) ? BLMatrix2D(1, 0, 0, 1, 0, 0) : mat(false); int tmode = blitted ? 0 : r.chance(2, 3) ? 0 : 2; BLMatrix2D full = pm; BLRect dst; int bk = 0; double margin = 0;
  BLContextCreateInfo ci{}; ci.thread_count = r.chance(1, 8) ? 1 + unsigned(r.below(3)) : 0; BLContext c; VH_OK(c.begin(t.img, ci), "begin"); VH_OK(c.set_comp_op(r.chance(1, 2) ? BL_COMP_OP_SRC_COPY : BL_COMP_OP_SRC_OVER), "comp-op"); VH_OK(c.set_pattern_quality(bil ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST), "quality");
  BLResult x = BL_SUCCESS; std::vector<uint8_t> drawn(size_t(w) * h, 0); auto mark = [&](int x0, int y0, int x1, int y1) { for (int y = std::max(0, y0); y < std::min(h, y1); y++) for (int xx = std::max(0, x0); xx < std::min(w, x1); xx++) drawn[size_t(y) * w + xx] = 1; };
  if (blitted) {
    VH_OK(c.set_transform(cm), "transform"); bk = int(r.below(4)); double ax = r.dbl(-20, w), ay = r.dbl(-20, h); if (r.chance(1, 3)) { ax = floor(ax); ay = floor(ay); } if (cm.m00 != 1 || cm.m01 != 0) { ax = r.dbl(-5, 5); ay = r.dbl(-5, 5); }
    switch (bk) { case 0: { BLPointI p{int(floor(ax)), int(floor(ay))}; dst = BLRect(p.x, p.y, area.w, area.h); x = has_area ? c.blit_image(p, im.img, area) : c.blit_image(p, im.img); break; } case 1: { dst = BLRect(ax, ay, area.w, area.h); x = has_area ? c.blit_image(BLPoint(ax, ay), im.img, area) : c.blit_image(BLPoint(ax, ay), im.img); break; }
      case 2: { BLRectI q(int(floor(ax)), int(floor(ay)), 1 + int(r.below(w + 9)), 1 + int(r.below(h + 9))); dst = BLRect(q.x, q.y, q.w, q.h); x = has_area ? c.blit_image(q, im.img, area) : c.blit_image(q, im.img); break; } default: { dst = BLRect(ax, ay, r.dbl(0.5, w + 9), r.dbl(0.5, h + 9)); x = has_area ? c.blit_image(dst, im.img, area) : c.blit_image(dst, im.img); } }
    full = BLMatrix2D(dst.w / area.w, 0, 0, dst.h / area.h, dst.x, dst.y); full = p26_mul(full, cm); margin = 0.01; ext = 0;
  } else {
    BLPattern p; bool late = r.chance(1, 2); if (late) { VH_OK(p.create(im.img, BLExtendMode(ext)), "pattern"); if (has_area) VH_OK(p.set_area(area), "area"); } else VH_OK(has_area ? p.create(im.img, area, BLExtendMode(ext), pm) : p.create(im.img, BLExtendMode(ext), pm), "pattern"); if (late) VH_OK(p.set_transform(pm), "pattern-transform");
    if (has_area && false) p.reset_area(); VH_OK(c.set_transform(cm), "transform"); if (tmode == 0) { full = p26_mul(pm, cm); } bool expl = tmode == 0 && r.chance(1, 4); if (!expl) VH_OK(tmode == 0 ? c.set_fill_style(p) : c.set_fill_style(p, BL_CONTEXT_STYLE_TRANSFORM_MODE_NONE), "style");
    int k = int(r.below(5)); if (expl) k = 0; BLMatrix2D id; id.reset(); if (!expl) VH_OK(c.set_transform(id), "transform");
    if (k == 0) { x = expl ? c.fill_all(p) : c.fill_all(); mark(0, 0, w, h); } else if (k == 1) { BLRectI q(int(r.below(w)), int(r.below(h)), 1 + int(r.below(w)), 1 + int(r.below(h))); x = c.fill_rect(q); mark(q.x, q.y, q.x + q.w, q.y + q.h); }
    else if (k == 4) { Ext mk; int mx = int(r.below(w)), my = int(r.below(h)), mw = 1 + int(r.below(w - mx)), mh = 1 + int(r.below(h - my)); mk.create(r, mw, mh, BL_FORMAT_A8); for (int yy = 0; yy < mh; yy++) for (int xx = 0; xx < mw; xx++) { bool on = !r.chance(1, 5); mk.set(xx, yy, on ? 255 : 0); if (on) drawn[size_t(my + yy) * w + mx + xx] = 1; } x = c.fill_mask(BLPointI(mx, my), mk.img); VH_OK(c.flush(BL_CONTEXT_FLUSH_SYNC), "flush"); }
    else { BLPath q; int n = 2 + int(r.below(5)); for (int i = 0; i < n; i++) { int x0 = int(r.below(w)), y0 = int(r.below(h)), x1 = x0 + 1 + int(r.below(w)), y1 = y0 + 1 + int(r.below(h)); q.add_box(x0, y0, x1, y1); mark(x0, y0, x1, y1); } x = c.fill_path(q); } }
  BLResult e = c.end(); char d[700]; snprintf(d, sizeof d, "%s %dx%d format %d area (%d,%d,%d,%d) %s extend %d, matrix (%.17g,%.17g,%.17g,%.17g,%.17g,%.17g) on %dx%d format %d threads %u", blitted ? Gen::fmt("blit %d (%.17g,%.17g,%.17g,%.17g) of", bk, dst.x, dst.y, dst.w, dst.h).c_str() : "pattern", iw, ih, int(sf), area.x, area.y, area.w, area.h, bil ? "bilinear" : "nearest", ext, full.m00, full.m01, full.m10, full.m11, full.m20, full.m21, w, h, int(f), ci.thread_count);
  if (st().verbose) { printf("case %llu: %s\n", (unsigned long long)g_case, d); fflush(stdout); }
  VH_CHECK(x == BL_SUCCESS && e == BL_SUCCESS, "error", "%s returned %u / %u", d, x, e); Hash hs; hs.add(full).add(area).add(iw).add(ih).add(ext).add(bil).add(w).add(h).add(int(sf)).add(int(f)); distinct(hs.h); sample("%s", d);
  long double a = full.m00, b = full.m01, cc = full.m10, dd = full.m11, det = a * dd - b * cc; if (!(fabsl(det) > 1e-9)) { count("singular"); return; }
  long double ia = dd / det, ib = -b / det, ic = -cc / det, id = a / det; bool linear = fabs(double(ia) - 1) < 1e-3 && fabs(double(ib)) < 1e-3 && fabs(double(ic)) < 1e-3 && fabs(double(id) - 1) < 1e-3; double mag = fabs(full.m20) * double(fabsl(ia) + fabsl(ib)) + fabs(full.m21) * double(fabsl(ic) + fabsl(id)); double del = (linear ? 1.0 / 200 + (full.m00 != 1 || full.m11 != 1 || full.m01 != 0 || full.m10 != 0 ? 0.02 : 0) : 2e-6) + mag * 4e-14 * (1 + double(fabsl(ia) + fabsl(ib) + fabsl(ic) + fabsl(id))) + 5e-10 * (w + h);
  bool exact = full.m00 == 1 && full.m11 == 1 && full.m01 == 0 && full.m10 == 0 && full.m20 == floor(full.m20) && full.m21 == floor(full.m21) && fabs(full.m20) < 1e9 && fabs(full.m21) < 1e9 ; int mx = EX[ext], my = EY[ext]; uint64_t n_exact = 0, n_judged = 0;
  auto tex = [&](int64_t u, int64_t v) { return px_of(im.get(area.x + int(p26_ext(u, area.w, mx)), area.y + int(p26_ext(v, area.h, my))), sf); };
  for (int y = 0; y < h; y++) for (int xx = 0; xx < w; xx++) {
    if (blitted) { bool in = true; for (int k = 0; k < 4 && in; k++) { long double px = xx + (k & 1) - full.m20, py = y + (k >> 1) - full.m21, u = px * ia + py * ic, v = px * ib + py * id; double ex = margin * fabs(1 / (dst.w / area.w)) * 0 + 0.002 * double(fabsl(ia) + fabsl(ic)) + (exact ? -1e-3 : 0.006 * double(fabsl(ia) + fabsl(ic))), ey = 0.002 * double(fabsl(ib) + fabsl(id)) + (exact ? -1e-3 : 0.006 * double(fabsl(ib) + fabsl(id))); if (exact) { ex = ey = -1e-6; } in = u >= ex && v >= ey && u <= area.w - ex && v <= area.h - ey; } if (!in) continue; }
    else if (!drawn[size_t(y) * w + xx]) { VH_CHECK((t.get(xx, y) & (f == BL_FORMAT_XRGB32 ? 0xFFFFFFu : 0xFFFFFFFFu)) == 0, "outside", "%s: pixel (%d,%d) isn't covered", d, xx, y); continue; }
    long double px = xx + 0.5L - full.m20, py = y + 0.5L - full.m21; double u = double(px * ia + py * ic), v = double(px * ib + py * id); Px R = px_of(t.get(xx, y), f); n_judged++;
    auto match = [&](const Px& lo, const Px& hi, double tol) { bool ok = true; if (f != BL_FORMAT_XRGB32) ok = ok && R.a >= lo.a - tol && R.a <= hi.a + tol; if (f != BL_FORMAT_A8) for (int i = 0; i < 3; i++) ok = ok && R.c[i] >= lo.c[i] - tol && R.c[i] <= hi.c[i] + tol; return ok; };
    if (exact || !bil) { double dl = exact ? 0 : del; bool ok = false; Px s{}; for (int i = 0; i < 2 && !ok; i++) for (int j = 0; j < 2 && !ok; j++) { s = tex(int64_t(floor(u + (i ? dl : -dl))), int64_t(floor(v + (j ? dl : -dl)))); ok = match(s, s, 0); } if (ok) n_exact++;
      VH_CHECK(ok, "texel", "%s: pixel (%d,%d) is %08X, texel at (%.9g,%.9g) is alpha %g color %g %g %g", d, xx, y, t.get(xx, y), u, v, s.a, s.c[0], s.c[1], s.c[2]); continue; }
    double fu = u - 0.5, fv = v - 0.5; int64_t x0 = int64_t(floor(fu)), y0 = int64_t(floor(fv)); double wx = fu - double(x0), wy = fv - double(y0); Px A = tex(x0, y0), B = tex(x0 + 1, y0), C = tex(x0, y0 + 1), D = tex(x0 + 1, y0 + 1), lo{}, hi{};
    int64_t bx0 = int64_t(floor(fu - del)), bx1 = int64_t(floor(fu + del)), by0 = int64_t(floor(fv - del)), by1 = int64_t(floor(fv + del)); Px mn = A, mxp = A; for (int64_t p = bx0; p <= bx1 + 1; p++) for (int64_t q = by0; q <= by1 + 1; q++) { Px s = tex(p, q); mn.a = std::min(mn.a, s.a); mxp.a = std::max(mxp.a, s.a); for (int i = 0; i < 3; i++) { mn.c[i] = std::min(mn.c[i], s.c[i]); mxp.c[i] = std::max(mxp.c[i], s.c[i]); } }
    auto mix = [&](double p, double q, double rr, double s, double range, double& l, double& g) { double m = (p * (1 - wx) + q * wx) * (1 - wy) + (rr * (1 - wx) + s * wx) * wy, e = range * (2.2 / 256 + 2 * del) + 0.01; l = m - e - (linear ? 1 + m * 1.01 / 256 : 2); g = m + e; };
    mix(A.a, B.a, C.a, D.a, mxp.a - mn.a, lo.a, hi.a); for (int i = 0; i < 3; i++) mix(A.c[i], B.c[i], C.c[i], D.c[i], mxp.c[i] - mn.c[i], lo.c[i], hi.c[i]);
    VH_CHECK(match(lo, hi, 0), "bilinear", "%s: pixel (%d,%d) is %08X, the mix at (%.9g,%.9g) is alpha %.2f..%.2f red %.2f..%.2f green %.2f..%.2f blue %.2f..%.2f", d, xx, y, t.get(xx, y), u, v, lo.a, hi.a, lo.c[0], hi.c[0], lo.c[1], hi.c[1], lo.c[2], hi.c[2]); }
  count("pixels judged", n_judged); count("pixels exact", n_exact); evals(n_judged); if (n_judged) { count(blitted ? "blits" : "patterns"); count(bil && !exact ? "bilinear" : "nearest"); if (!linear) count("affine"); else if (!exact) count("fractional"); else count("aligned"); } int qx, qy; VH_CHECK(!im.changed_outside(0, 0, 0, 0, qx, qy), "source-changed", "%s changed its source", d);
}
