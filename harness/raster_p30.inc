// P30: one scene, a synchronous context and an asynchronous context; pixels at every synchronising flush and at the end.
static std::string first_diff(Ext& a, Ext& b) {
  for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) if (a.get(x, y) != b.get(x, y)) { char t[128]; snprintf(t, sizeof t, "pixel (%d,%d) sync %08X async %08X", x, y, a.get(x, y), b.get(x, y)); return t; } return "";
}
struct P30Item { Op op; int flush; };
struct P30Run { const char* key = nullptr; std::string what; uint64_t draws = 0, ok = 0, flushes = 0; };
static P30Run p30_run(const std::vector<P30Item>& items, Ext& a, Ext& b, const std::vector<uint8_t>& start, const BLContextCreateInfo& ci, bool via_reset) {
  P30Run R; int w = a.w, h = a.h; size_t line = size_t(w) * size_t(bpp(a.fmt)); char t[700];
  auto load = [&](Ext& e) { for (int y = 0; y < h; y++) memcpy(e.row(y), start.data() + size_t(y) * line, line); };
  auto grab = [&](Ext& e) { std::vector<uint8_t> v; for (int y = 0; y < h; y++) v.insert(v.end(), e.row(y), e.row(y) + line); return v; };
  std::vector<BLResult> codes; std::vector<std::vector<uint8_t>> snaps; load(a); load(b);
  { BLContextCreateInfo si{}; BLContext c; VH_OK(c.begin(a.img, si), "begin"); for (auto& it : items) { BLResult x = it.op.f(c); codes.push_back(x); if (it.op.draws) { R.draws++; if (x == BL_SUCCESS) R.ok++; } if (it.flush == 2) { VH_OK(c.flush(BL_CONTEXT_FLUSH_SYNC), "flush"); snaps.push_back(grab(a)); } } VH_OK(c.end(), "end"); }
  size_t k = 0; BLContext c; VH_OK(c.begin(b.img, ci), "begin-async");
  for (size_t i = 0; i < items.size(); i++) { BLResult x = items[i].op.f(c); if (x != codes[i] && !(x == 65543u || codes[i] == 65543u) && !R.key) { snprintf(t, sizeof t, "operation %zu (%s) returned %u on the synchronous and %u on the asynchronous context", i, items[i].op.d.c_str(), codes[i], x); R.key = "result-code"; R.what = t; }
    if (items[i].flush) { VH_OK(c.flush(items[i].flush == 2 ? BL_CONTEXT_FLUSH_SYNC : BL_CONTEXT_FLUSH_NO_FLAGS), "flush-async"); if (items[i].flush == 2) { if (grab(b) != snaps[k] && !R.key) { snprintf(t, sizeof t, "after operation %zu (%s) and a synchronising flush the images differ", i, items[i].op.d.c_str()); R.key = "flush-pixels"; R.what = t; } k++; R.flushes++; } } }
  if (via_reset) c.reset(); else VH_OK(c.end(), "end-async");
  std::string d = first_diff(a, b); if (!d.empty() && !R.key) { R.key = "pixels"; R.what = d; }
  return R;
}
static void case_p30(Rng& r) {
  bool big = r.chance(1, 40); int w = 1 + int(r.skew(big ? 1500 : 130)), h = 1 + int(r.skew(big ? 700 : 400)); BLFormat f = rnd_format(r);
  Ext a, b; a.create(r, w, h, f); b.create(r, w, h, f); fill_random(r, a); std::vector<uint8_t> start; for (int y = 0; y < h; y++) start.insert(start.end(), a.row(y), a.row(y) + size_t(w) * size_t(bpp(f)));
  Gen g(r, w, h); if (r.chance(1, 2)) add_fonts(g);
  int n = r.chance(1, 30) ? 500 + int(r.below(3000)) : int(r.skew(120)); unsigned threads = 1 + unsigned(r.below(8)); bool flushes = r.chance(1, 2); bool few = r.chance(1, 3);
  std::vector<P30Item> items; Op rep = g.draw_op();
  for (int i = 0; i < n; i++) { P30Item it; it.flush = flushes && r.chance(1, 10) ? 1 + int(r.below(2)) : 0; bool draw = few ? !r.chance(1, 10) : r.chance(1, 2); it.op = draw ? (n > 200 && !r.chance(1, 8) ? rep : g.draw_op()) : g.state_op(); if (it.op.draws && n > 200 && r.chance(1, 4)) rep = it.op; items.push_back(it); }
  BLContextCreateInfo ci{}; ci.thread_count = threads; if (r.chance(1, 4)) ci.command_queue_limit = uint32_t(r.below(2) ? r.below(300) : r.below(5000)); if (r.chance(1, 10)) ci.flags |= BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL;
  unsigned repeat = r.chance(1, 8) ? 2 : 1; bool via_reset = r.chance(1, 4);
  for (unsigned k = 0; k < repeat; k++) {
    P30Run R = p30_run(items, a, b, start, ci, via_reset);
    if (R.key) {
      if (st().verbose) { // Reduce the scene.
        std::string key = R.key; for (size_t step = items.size(); step; step /= 2) for (size_t i = 0; i < items.size();) { std::vector<P30Item> v(items.begin(), items.begin() + long(i)); v.insert(v.end(), items.begin() + long(std::min(i + step, items.size())), items.end()); P30Run q = p30_run(v, a, b, start, ci, via_reset); if (q.key && key == q.key) { items = v; R = q; } else i += step; }
        int px = 0, py = 0; const char* q = strstr(R.what.c_str(), "pixel ("); if (q) sscanf(q, "pixel (%d,%d)", &px, &py);
        for (size_t i = 0; i <= items.size(); i++) { std::vector<P30Item> v(items.begin(), items.begin() + long(i)); p30_run(v, a, b, start, ci, via_reset); printf("%zu %s flush%d: sync %08X async %08X\n", i, i ? items[i - 1].op.d.c_str() : "start", i ? items[i - 1].flush : 0, a.get(px, py), b.get(px, py)); } }
      fail(R.key, "threads %u, %dx%d format %d, %zu operations: %s", threads, w, h, int(f), items.size(), R.what.c_str()); }
    count("async runs"); count("threads used", threads); count("flushes compared", R.flushes); if (!k) { count("draw calls", R.draws); count("draw calls ok", R.ok); }
  }
  for (auto& im : g.images) { int x, y; VH_CHECK(!im->changed_outside(0, 0, 0, 0, x, y), "source-changed", "source image changed at (%d,%d)", x, y); }
  if (n > 200) count("long scenes"); evals(uint64_t(n));
  Hash hs; hs.add(w).add(h).add(n).add(threads); for (auto& it : items) hs.add(it.op.d.data(), it.op.d.size()); distinct(hs.h); sample("%dx%d format %d threads %u operations %d: %s", w, h, int(f), threads, n, n ? items[size_t(n - 1)].op.d.c_str() : "");
}
