// P25: every pixel equals the operator's formula applied to the previous pixel, coverage and source.
struct Px { double a, c[3]; };
static Px px_of(uint32_t v, BLFormat f) {
  if (f == BL_FORMAT_A8) { double a = double(v & 0xFF); return Px{a, {a, a, a}}; }
  Px p; p.a = f == BL_FORMAT_XRGB32 ? 255.0 : double(v >> 24); for (int i = 0; i < 3; i++) p.c[i] = double(v >> (16 - 8 * i) & 0xFF); return p;
}
// Blending formulas (premultiplied, 0..1); false if the operator has none below.
static bool blend(BLCompOp op, const double s, const double sa, const double d, const double da, double& o) {
  double k = s * (1 - da) + d * (1 - sa);
  switch (op) {
    case BL_COMP_OP_SRC_OVER: o = s + d * (1 - sa); return true; case BL_COMP_OP_SRC_COPY: o = s; return true; case BL_COMP_OP_SRC_IN: o = s * da; return true; case BL_COMP_OP_SRC_OUT: o = s * (1 - da); return true;
    case BL_COMP_OP_SRC_ATOP: o = s * da + d * (1 - sa); return true; case BL_COMP_OP_DST_OVER: o = d + s * (1 - da); return true; case BL_COMP_OP_DST_COPY: o = d; return true; case BL_COMP_OP_DST_IN: o = d * sa; return true;
    case BL_COMP_OP_DST_OUT: o = d * (1 - sa); return true; case BL_COMP_OP_DST_ATOP: o = d * sa + s * (1 - da); return true; case BL_COMP_OP_XOR: o = k; return true; case BL_COMP_OP_CLEAR: o = 0; return true;
    case BL_COMP_OP_PLUS: o = std::min(1.0, s + d); return true; case BL_COMP_OP_MODULATE: o = s * d; return true; case BL_COMP_OP_MULTIPLY: o = s * d + k; return true; case BL_COMP_OP_SCREEN: o = s + d - s * d; return true;
    case BL_COMP_OP_DARKEN: o = std::min(s * da, d * sa) + k; return true; case BL_COMP_OP_LIGHTEN: o = std::max(s * da, d * sa) + k; return true; case BL_COMP_OP_DIFFERENCE: o = s + d - 2 * std::min(s * da, d * sa); return true;
    case BL_COMP_OP_EXCLUSION: o = s + d - 2 * s * d; return true; default: return false; }
}
static Px compose(BLCompOp op, const Px& s, const Px& d, bool& known) {
  Px o; double S = s.a / 255, D = d.a / 255; known = true;
  for (int i = 0; i < 3; i++) { double v = 0; if (!blend(op, s.c[i] / 255, S, d.c[i] / 255, D, v)) { known = s.a == 0; v = d.c[i] / 255; } o.c[i] = v * 255; }
  double v; switch (op) { case BL_COMP_OP_SRC_COPY: case BL_COMP_OP_SRC_IN: case BL_COMP_OP_SRC_OUT: case BL_COMP_OP_SRC_ATOP: case BL_COMP_OP_DST_COPY: case BL_COMP_OP_DST_IN: case BL_COMP_OP_DST_OUT: case BL_COMP_OP_DST_ATOP: case BL_COMP_OP_XOR: case BL_COMP_OP_CLEAR: case BL_COMP_OP_PLUS: case BL_COMP_OP_MODULATE: blend(op, S, S, D, D, v); break; default: v = S + D * (1 - S); }
  o.a = v * 255; return o;
}
static void case_p25(Rng& r) {
  BLFormat f = rnd_format(r); int w = 1 + int(r.skew(70)), h = 1 + int(r.skew(12)); Ext t; t.create(r, w, h, f); fill_random(r, t); std::vector<uint32_t> before(size_t(w * h)); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) before[size_t(y * w + x)] = t.get(x, y); t.snapshot();
  BLCompOp op = r.chance(1, 3) ? BL_COMP_OP_SRC_OVER : r.chance(1, 3) ? BL_COMP_OP_SRC_COPY : BLCompOp(r.below(29));
  // Source.
  int src = int(r.below(4)); Ext im; std::vector<Px> S(size_t(w * h)); double serr = 0; BLVar style; std::string sd; int ox = 0, oy = 0; int iw = w + int(r.below(9)), ih = h + int(r.below(5));
  if (src < 2) { uint32_t c = r.chance(1, 6) ? r.u32() & 0xFFFFFF : r.chance(1, 3) ? r.u32() | 0xFF000000u : r.u32(); BLRgba32 q(c); double a; Px p;
    int k = int(r.below(3)); if (k == 0) { style = BLVar(q); a = double(c >> 24) / 255; for (int i = 0; i < 3; i++) p.c[i] = double(c >> (16 - 8 * i) & 0xFF) * a; }
    else if (k == 1) { BLRgba64 z(uint64_t(r.u64())); if (c >> 24 == 255) z.value |= 0xFFFF000000000000ull; if (c >> 24 == 0) z.value &= 0xFFFFFFFFFFFFull; style = BLVar(z); a = double(z.value >> 48) / 65535; for (int i = 0; i < 3; i++) p.c[i] = double(z.value >> (32 - 16 * i) & 0xFFFF) / 257.0 * a; }
    else { BLRgba z(float(r.unit()), float(r.unit()), float(r.unit()), c >> 24 == 255 ? 1.0f : c >> 24 == 0 ? 0.0f : float(r.unit())); style = BLVar(z); a = double(z.a); p.c[0] = double(z.r) * 255 * a; p.c[1] = double(z.g) * 255 * a; p.c[2] = double(z.b) * 255 * a; }
    p.a = a * 255; serr = k == 0 ? 0.5 : a == 0 ? 0 : 1.6; for (auto& e : S) e = p; sd = k == 0 ? "Rgba32" : k == 1 ? "Rgba64" : "Rgba"; count("solid sources"); if (a == 0) count("transparent sources"); if (a == 1) count("opaque sources");
    if (f == BL_FORMAT_A8 && k == 0) serr = 0; }
  else { BLFormat sf = rnd_format(r); im.create(r, iw, ih, sf); fill_random(r, im); im.snapshot(); ox = int(r.below(iw - w + 1)); oy = int(r.below(ih - h + 1)); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) S[size_t(y * w + x)] = px_of(im.get(x + ox, y + oy), sf);
    BLPattern p(im.img, BLRectI(ox, oy, iw - ox, ih - oy), BLExtendMode(r.below(3))); p.set_area(BLRectI(ox, oy, iw - ox, ih - oy)); style = BLVar(p); sd = src == 2 ? "pattern" : "blit"; sd += sf == BL_FORMAT_A8 ? " A8" : sf == BL_FORMAT_XRGB32 ? " XRGB32" : " PRGB32"; count(src == 2 ? "pattern sources" : "blits"); }
  // Shape: coverage interval per pixel.
  int shape = src == 3 ? int(r.below(2)) : int(r.below(5)); std::vector<double> lo(size_t(w * h), 0), hi(size_t(w * h), 0); BLRectI box(0, 0, w, h); double bx0 = 0, by0 = 0, bx1 = w, by1 = h; Ext mk; std::string hd;
  if (shape >= 1) { box.x = int(r.below(w)); box.y = int(r.below(h)); box.w = int(r.range(1, w - box.x)); box.h = int(r.range(1, h - box.y)); bx0 = box.x; by0 = box.y; bx1 = box.x + box.w; by1 = box.y + box.h; }
  if (shape == 2) { bx0 = double(r.below(uint64_t(w) * 256)) / 256; by0 = double(r.below(uint64_t(h) * 256)) / 256; bx1 = bx0 + double(1 + r.below(uint64_t((w - bx0) * 256))) / 256; by1 = by0 + double(1 + r.below(uint64_t((h - by0) * 256))) / 256; bx1 = std::min(bx1, double(w)); by1 = std::min(by1, double(h)); if (r.chance(1, 3)) { bx0 = floor(bx0); } if (r.chance(1, 3)) by0 = floor(by0); }
  if (shape >= 3) { mk.create(r, box.w, box.h, BL_FORMAT_A8); fill_random(r, mk); if (r.chance(1, 2)) for (int y = 0; y < box.h; y++) for (int x = 0; x < box.w; x++) if (r.chance(1, 3)) mk.set(x, y, r.chance(1, 2) ? 255 : 0); mk.snapshot(); }
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double cx = std::max(0.0, std::min(bx1, x + 1.0) - std::max(bx0, double(x))), cy = std::max(0.0, std::min(by1, y + 1.0) - std::max(by0, double(y))), c = cx * cy; size_t i = size_t(y * w + x);
    if (shape >= 3 && c > 0) c = double(mk.get(x - box.x, y - box.y)) / 255; lo[i] = hi[i] = c; if (shape == 2 && c != 1.0 && c != 0) { lo[i] = std::max(0.0, c - 2.1 / 255); } }
  // Alpha.
  bool blitted = src == 3; double ga = r.chance(1, 2) ? 1 : r.chance(1, 10) ? 0 : r.unit(), fa = r.chance(1, 2) ? 1 : r.chance(1, 10) ? 0 : r.unit(); double A = blitted ? ga : ga * fa;
  if (A != 1) for (size_t i = 0; i < lo.size(); i++) { double e = 0.51 / 255 + (shape >= 2 ? 1.01 / 255 : 0); bool z = hi[i] == 0 || A == 0; lo[i] = z ? 0 : std::max(0.0, lo[i] * A - e); hi[i] = z ? 0 : std::min(1.0, hi[i] * A + e); }
  unsigned threads = r.chance(1, 6) ? 1 + unsigned(r.below(3)) : 0; BLContextCreateInfo ci{}; ci.thread_count = threads; BLResult x = BL_SUCCESS; bool expl = r.chance(1, 2) && !blitted;
  { BLContext c; VH_OK(c.begin(t.img, ci), "begin"); VH_OK(c.set_comp_op(op), "comp-op"); VH_OK(c.set_pattern_quality(r.chance(1, 2) ? BL_PATTERN_QUALITY_NEAREST : BL_PATTERN_QUALITY_BILINEAR), "quality"); bool order = r.chance(1, 2);
    if (order) { VH_OK(c.set_fill_alpha(fa), "alpha"); VH_OK(c.set_global_alpha(ga), "alpha"); } if (!expl && !blitted) VH_OK(c.set_fill_style(style), "style"); else if (r.chance(1, 2)) VH_OK(c.set_fill_style(BLRgba32(r.u32())), "style");
    if (!order) { VH_OK(c.set_global_alpha(ga), "alpha"); VH_OK(c.set_fill_alpha(fa), "alpha"); }
    BLRect bd(bx0, by0, bx1 - bx0, by1 - by0);
    if (blitted) { BLRectI area(ox + box.x, oy + box.y, box.w, box.h); x = r.chance(1, 2) ? c.blit_image(BLPointI(box.x, box.y), im.img, area) : c.blit_image(BLPoint(box.x, box.y), im.img, area); hd = "blit"; }
    else switch (shape) { case 0: { bool p = r.chance(1, 2); hd = p ? "fill_all" : "fill_rect all"; x = p ? (expl ? c.fill_all(style) : c.fill_all()) : (expl ? c.fill_rect(BLRect(-5, -3, w + 9, h + 9), style) : c.fill_rect(BLRect(-5, -3, w + 9, h + 9))); break; }
      case 1: hd = "fill_rect"; x = expl ? c.fill_rect(box, style) : c.fill_rect(box); break; case 2: hd = "fill_rect fractional"; x = expl ? c.fill_rect(bd, style) : c.fill_rect(bd); break;
      default: hd = "fill_mask"; x = expl ? c.fill_mask(BLPointI(box.x, box.y), mk.img, style) : c.fill_mask(BLPointI(box.x, box.y), mk.img); break; }
    BLResult e = c.end(); VH_CHECK(e == BL_SUCCESS, "end", "end failed: %u", e); }
  char d[300]; snprintf(d, sizeof d, "%s source %s%s operator %d on format %d, alpha %g x %g, %dx%d box (%g,%g)-(%g,%g) threads %u", hd.c_str(), expl ? "explicit " : "", sd.c_str(), int(op), int(f), ga, fa, w, h, bx0, by0, bx1, by1, threads);
  Hash hs; hs.add(int(op)).add(int(f)).add(ga).add(fa).add(src).add(shape).add(bx0).add(by0).add(w).add(h); for (auto& p : S) { hs.add(p.a).add(p.c[0]); if (src < 2) break; } distinct(hs.h); sample("%s", d);
  if (x != BL_SUCCESS) { VH_CHECK(x == 65543u, "unexpected-error", "%s returned %u", d, x); VH_CHECK(op != BL_COMP_OP_SRC_OVER && op != BL_COMP_OP_SRC_COPY && op != BL_COMP_OP_CLEAR && op != BL_COMP_OP_DST_COPY, "not-implemented", "%s isn't available", d); count("operators not available");
    int qx, qy; VH_CHECK(!t.changed_outside(0, 0, 0, 0, qx, qy), "error-changed-pixels", "%s returned an error, but changed pixel (%d,%d)", d, qx, qy); return; }
  count("draw calls"); if (op > 1) count("other operators available"); if (shape >= 3) count("masked");
  uint64_t exact = 0; for (int y = 0; y < h; y++) for (int xx = 0; xx < w; xx++) {
    size_t i = size_t(y * w + xx); uint32_t b = before[i], a = t.get(xx, y); Px D = px_of(b, f), R = px_of(a, f); const Px& s = S[i]; bool known; Px O = compose(op, s, D, known);
    if (f == BL_FORMAT_PRGB32) VH_CHECK((a >> 16 & 255) <= a >> 24 && (a >> 8 & 255) <= a >> 24 && (a & 255) <= a >> 24, "not-premultiplied", "%s: pixel (%d,%d) was %08X and is %08X", d, xx, y, b, a);
    if (hi[i] == 0) { VH_CHECK((a ^ b) == 0 || (f == BL_FORMAT_XRGB32 && ((a ^ b) & 0xFFFFFF) == 0), "zero-coverage", "%s: pixel (%d,%d) isn't covered, but it changed from %08X to %08X", d, xx, y, b, a); exact++; continue; }
    if (f == BL_FORMAT_A8 ? false : !known) { count("formulas not modelled"); continue; }
    bool full = lo[i] == 1; double tol = full ? ((op == BL_COMP_OP_SRC_COPY || op == BL_COMP_OP_DST_COPY || op == BL_COMP_OP_CLEAR ? 0 : 0.5) + serr * 2) + 0.01 : 1.51 + serr * 2;
    if (full && op == BL_COMP_OP_SRC_COPY) tol = serr + 0.01;
    if (s.a == 0 && op == BL_COMP_OP_SRC_OVER) tol = 0; if (full && s.a == 255 && op == BL_COMP_OP_SRC_OVER) tol = serr + 0.01; if (tol < 0.02) exact++;
    auto one = [&](double Rv, double Dv, double Ov, const char* n) { double p = Dv + (Ov - Dv) * lo[i], q = Dv + (Ov - Dv) * hi[i]; if (p > q) std::swap(p, q); p -= tol; q += tol;
      VH_CHECK(Rv >= p && Rv <= q, "formula", "%s: %s of pixel (%d,%d) is %g; destination %g (%08X), source %.2f (alpha %.2f), coverage %.4f-%.4f, expected %.2f..%.2f", d, n, xx, y, Rv, Dv, b, n[0] == 'a' ? s.a : s.c[n[0] == 'r' ? 0 : n[0] == 'g' ? 1 : 2], s.a, lo[i], hi[i], p, q); };
    if (f != BL_FORMAT_XRGB32) one(R.a, D.a, O.a, "alpha"); if (f != BL_FORMAT_A8) { one(R.c[0], D.c[0], O.c[0], "red"); one(R.c[1], D.c[1], O.c[1], "green"); one(R.c[2], D.c[2], O.c[2], "blue"); }
  }
  count("pixels judged", uint64_t(w * h)); count("pixels exact", exact); evals(uint64_t(w * h)); int qx, qy; if (im.mem) VH_CHECK(!im.changed_outside(0, 0, 0, 0, qx, qy), "source-changed", "%s changed its source", d);
}
