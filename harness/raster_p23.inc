// P23: pixels outside the clip and bytes that are no pixels keep their value, sources keep theirs, nothing is read or
// written out of bounds (AddressSanitizer with poisoned row padding).
static uint64_t g_case = 0;
static void case_p23(Rng& r) {
  bool big = r.chance(1, 60); int w = 1 + int(r.skew(big ? 3000 : 100)), h = 1 + int(r.skew(big ? 300 : 150)); BLFormat f = rnd_format(r);
  Ext t; t.create(r, w, h, f); fill_random(r, t); Gen g(r, w, h); g.weird = r.chance(1, 2); g.clip_ops = false; if (r.chance(1, 3)) add_fonts(g);
  BLContextCreateInfo ci{}; ci.thread_count = r.chance(1, 4) ? 1 + uint32_t(r.below(4)) : 0; BLContext c; VH_OK(c.begin(t.img, ci), "begin"); int n = 1 + int(r.skew(30)); Hash hs; hs.add(w).add(h); std::string last;
  int groups = 1 + int(r.below(3));
  for (int k = 0; k < groups; k++) {
    VH_OK(c.save(), "save"); double x0 = 0, y0 = 0, x1 = w, y1 = h; int clips = int(r.below(3));
    // The clip is set under a plain or translated/scaled transform, so that its device box is known.
    for (int i = 0; i < clips; i++) {
      double sx = 1, sy = 1, tx = 0, ty = 0; if (r.chance(1, 2)) { sx = r.chance(1, 2) ? r.dbl(0.3, 2) : -1; sy = r.dbl(0.3, 2); tx = r.dbl(-5, w); ty = r.dbl(-5, h); } c.set_transform(BLMatrix2D(sx, 0, 0, sy, tx, ty));
      double a, b, cc, d; if (r.chance(1, 3)) { BLRectI q = g.recti(w, h); q.w = std::max(q.w, 0); q.h = std::max(q.h, 0); a = q.x; b = q.y; cc = q.w; d = q.h; c.clip_to_rect(q); } else { bool wd = g.weird; g.weird = false; BLRect q = g.rect(); g.weird = wd; a = q.x; b = q.y; cc = q.w; d = q.h; c.clip_to_rect(q); }
      if (st().verbose) printf("  clip_to_rect %.17g %.17g %.17g %.17g under scale %.17g %.17g translate %.17g %.17g\n", a, b, cc, d, sx, sy, tx, ty); double u0 = std::min(a * sx, (a + cc) * sx) + tx, u1 = std::max(a * sx, (a + cc) * sx) + tx, v0 = std::min(b * sy, (b + d) * sy) + ty, v1 = std::max(b * sy, (b + d) * sy) + ty; x0 = std::max(x0, u0); x1 = std::min(x1, u1); y0 = std::max(y0, v0); y1 = std::min(y1, v1); }
    if (st().verbose) printf("clip %.17g %.17g %.17g %.17g\n", x0, y0, x1, y1); c.reset_transform(); // user transform only
    int cx0 = int(floor(x0 - 1.0 / 200)), cy0 = int(floor(y0 - 1.0 / 200)), cx1 = int(ceil(x1 + 1.0 / 200)), cy1 = int(ceil(y1 + 1.0 / 200)); if (x1 <= x0 || y1 <= y0) { cx0 = cx1 = cy0 = cy1 = 0; }
    c.flush(BL_CONTEXT_FLUSH_SYNC); t.snapshot();
    std::string ops; int depth = 0;
    for (int i = 0; i < n; i++) {
      Op o = r.chance(3, 5) ? g.draw_op() : g.state_op(); if (o.d == "save") depth++; if (o.d == "restore") { if (!depth) continue; depth--; } if (o.d == "user_to_meta") continue;
      if (st().verbose) { printf("case %llu: %s\n", (unsigned long long)g_case, o.d.c_str()); fflush(stdout); } BLResult x = o.f(c); hs.add(o.d.data(), o.d.size()); ops += o.d + "; "; if (o.draws) { count(x == BL_SUCCESS ? "draw calls ok" : "draw calls refused"); }
      if (st().verbose) { printf("%s -> %u\n", o.d.c_str(), x); fflush(stdout); } last = o.d;
      if (o.draws && (r.chance(1, 4) || st().verbose)) { c.flush(BL_CONTEXT_FLUSH_SYNC); int ox, oy; if (t.changed_outside(cx0, cy0, cx1, cy1, ox, oy)) fail("outside-clip", "after %s: %s (%d,%d) of a %dx%d format %d image changed; clip box (%g,%g)-(%g,%g)", o.d.c_str(), ox >= w ? "padding after" : "pixel", ox, oy, w, h, int(f), x0, y0, x1, y1); }
    }
    c.flush(BL_CONTEXT_FLUSH_SYNC); int ox, oy; if (t.changed_outside(cx0, cy0, cx1, cy1, ox, oy)) fail("outside-clip", "%s (%d,%d) of a %dx%d format %d image changed; clip box (%g,%g)-(%g,%g) operations: %s", ox >= w ? "padding after" : "pixel", ox, oy, w, h, int(f), x0, y0, x1, y1, ops.substr(0, 1000).c_str());
    if (clips) count("clipped groups"); if (cx1 > cx0) count("visible groups"); evals(uint64_t(n));
    while (depth-- > 0) c.restore(); VH_OK(c.restore(), "restore"); 
  }
  VH_OK(c.end(), "end"); for (auto& im : g.images) { int x, y; VH_CHECK(!im->changed_outside(0, 0, 0, 0, x, y), "source-changed", "source image changed at (%d,%d)", x, y); }
  distinct(hs.h); sample("%dx%d format %d, last: %s", w, h, int(f), last.c_str());
}
