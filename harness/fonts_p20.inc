// Compares a path with the expected contours: same segments in the same order, up to the contour's starting point.
struct PC { bool closed = false; Contour c; };
static void norm(Contour& c, double eps) {
  auto near = [&](Pt a, Pt b) { return fabs(a.x - b.x) <= eps && fabs(a.y - b.y) <= eps; };
  std::vector<Seg> o; Pt cur = c.start;
  if (!c.segs.empty()) { Pt e = c.segs.back().p[c.segs.back().n - 1]; if (!near(e, c.start)) c.segs.push_back(Seg{1, {c.start, {0, 0}, {0, 0}}}); }
  for (auto& s : c.segs) { bool zero = true; for (int i = 0; i < s.n; i++) zero = zero && near(s.p[i], cur); if (!zero) o.push_back(s); if (!zero) cur = s.p[s.n - 1]; }
  c.segs = o;
}
static bool same_cycle(const Contour& a, const Contour& b, double eps) {
  size_t n = a.segs.size(); if (n != b.segs.size()) return false; if (!n) return true;
  for (size_t rot = 0; rot < n; rot++) { bool ok = true;
    for (size_t i = 0; i < n && ok; i++) { const Seg &x = a.segs[i], &y = b.segs[(i + rot) % n]; ok = x.n == y.n; for (int k = 0; ok && k < x.n; k++) ok = fabs(x.p[k].x - y.p[k].x) <= eps && fabs(x.p[k].y - y.p[k].y) <= eps; }
    if (ok) return true; }
  return false;
}
static std::string show(const Contour& c) { std::string s; char t[80]; for (auto& g : c.segs) { s += g.n == 1 ? " L" : g.n == 2 ? " Q" : " C"; for (int i = 0; i < g.n; i++) { snprintf(t, sizeof t, "(%g,%g)", g.p[i].x, g.p[i].y); s += t; } if (s.size() > 300) break; } return s; }
static std::vector<PC> contours_of(const BLPath& p, const char* key) {
  std::vector<PC> o; const BLPoint* v = p.vertex_data(); const uint8_t* c = p.command_data(); size_t n = p.size();
  for (size_t i = 0; i < n;) {
    int k = 1;
    if (c[i] == BL_PATH_CMD_MOVE) { PC q; q.c.start = {v[i].x, v[i].y}; o.push_back(q); }
    else if (c[i] == BL_PATH_CMD_CLOSE) { VH_CHECK(!o.empty() && !o.back().closed, key, "close without a figure at %zu", i); o.back().closed = true; }
    else { VH_CHECK(!o.empty() && !o.back().closed, key, "command %u without a figure at %zu", c[i], i); k = c[i] == BL_PATH_CMD_ON ? 1 : c[i] == BL_PATH_CMD_QUAD ? 2 : c[i] == BL_PATH_CMD_CUBIC ? 3 : 0; VH_CHECK(k && i + size_t(k) <= n, key, "command %u at %zu of %zu", c[i], i, n); Seg s; s.n = k; for (int j = 0; j < k; j++) s.p[j] = {v[i + size_t(j)].x, v[i + size_t(j)].y}; o.back().c.segs.push_back(s); }
    i += size_t(k);
  }
  return o;
}
static void check_outline(const BLPath& p, const Outline& want_, const BLMatrix2D& m, const char* key, const std::string& what) {
  Outline want = want_; double mag = 1e-12, tmag = fabs(m.m20) + fabs(m.m21); for (auto& k : want) { auto T = [&](Pt& q) { mag = std::max(mag, fabs(q.x) * (fabs(m.m00) + fabs(m.m01)) + fabs(q.y) * (fabs(m.m10) + fabs(m.m11))); q = Pt{q.x * m.m00 + q.y * m.m10 + m.m20, q.x * m.m01 + q.y * m.m11 + m.m21}; }; T(k.start); for (auto& s : k.segs) for (int i = 0; i < s.n; i++) T(s.p[i]); }
  double eps = (mag + tmag) * 1e-7 + 1e-12;
  std::vector<PC> got = contours_of(p, key); std::vector<const Contour*> g, w; for (auto& k : want) { norm(k, eps); if (!k.segs.empty()) w.push_back(&k); }
  for (auto& q : got) { norm(q.c, eps); if (!q.c.segs.empty()) { VH_CHECK(q.closed, key, "%s: an open contour", what.c_str()); g.push_back(&q.c); } }
  VH_CHECK(g.size() == w.size(), key, "%s: %zu contours, expected %zu", what.c_str(), g.size(), w.size());
  for (size_t i = 0; i < g.size(); i++) { if (!same_cycle(*g[i], *w[i], eps)) fail(key, "%s: contour %zu of %zu is%s, expected%s (eps %g)", what.c_str(), i, g.size(), show(*g[i]).c_str(), show(*w[i]).c_str(), eps); evals(w[i]->segs.size()); }
}
static void extend(double& lo, double& hi, double v) { lo = std::min(lo, v); hi = std::max(hi, v); }
static void cubic_ext(double a, double b, double c, double d, double& lo, double& hi) {
  extend(lo, hi, d); double A = -a + 3 * b - 3 * c + d, B = 2 * (a - 2 * b + c), C = b - a; double t[2]; int n = 0;
  if (fabs(A) < 1e-12) { if (fabs(B) > 1e-12) t[n++] = -C / B; } else { double D = B * B - 4 * A * C; if (D >= 0) { D = sqrt(D); t[n++] = (-B + D) / (2 * A); t[n++] = (-B - D) / (2 * A); } }
  for (int i = 0; i < n; i++) if (t[i] > 0 && t[i] < 1) { double q = 1 - t[i]; extend(lo, hi, q * q * q * a + 3 * q * q * t[i] * b + 3 * q * t[i] * t[i] * c + t[i] * t[i] * t[i] * d); }
}
static bool sbox(const Outline& o, double b[4], bool lone = false) { // `lone`: a contour without segments counts too (it isn't visible).
  bool any = false; b[0] = b[1] = 1e300; b[2] = b[3] = -1e300;
  for (auto& k : o) { if (k.segs.empty() && !lone) continue; any = true; extend(b[0], b[2], k.start.x); extend(b[1], b[3], k.start.y); Pt c = k.start; for (auto& s : k.segs) { if (s.n == 1) { extend(b[0], b[2], s.p[0].x); extend(b[1], b[3], s.p[0].y); } else { cubic_ext(c.x, s.p[0].x, s.p[1].x, s.p[2].x, b[0], b[2]); cubic_ext(c.y, s.p[0].y, s.p[1].y, s.p[2].y, b[1], b[3]); } c = s.p[s.n - 1]; } }
  return any;
}

struct SinkLog { size_t calls = 0; std::vector<size_t> idx; std::vector<size_t> sizes; };
static BLResult BL_CDECL log_sink(BLPathCore* path, const void* info, void* ud) noexcept { SinkLog* l = (SinkLog*)ud; l->calls++; l->idx.push_back(((const BLGlyphOutlineSinkInfo*)info)->glyph_index); l->sizes.push_back(path->dcast().size()); return BL_SUCCESS; }

static void p20_cmap(Rng& r, const fg::Font& f, const BLFontFace& ff, BLFont& font) {
  const fg::CMapSub* c = f.best_cmap(); auto want = [&](uint32_t u) -> uint32_t { if (!c) return 0; auto it = c->map.find(u); return it == c->map.end() ? 0 : it->second; };
  std::vector<uint32_t> text; auto put = [&](uint32_t u) { if (u && u < 0x110000 && !(u >= 0xD800 && u <= 0xDFFF)) text.push_back(u); };
  if (c && !c->map.empty()) {
    if (r.chance(1, 2)) { for (auto& kv : c->map) { put(kv.first); if (r.chance(1, 4)) { put(kv.first + 1); put(kv.first - 1); } } }
    else for (int i = 0; i < 60; i++) { auto it = c->map.lower_bound(uint32_t(r.below(c->map.rbegin()->first + 1))); if (it != c->map.end()) { put(it->first); if (r.chance(1, 3)) put(it->first + 1); if (r.chance(1, 3)) put(it->first - 1); } }
    put(c->map.begin()->first - 1); put(c->map.rbegin()->first + 1);
  }
  for (int i = 0; i < 12; i++) put(uint32_t(r.below(r.chance(1, 2) ? 0x300 : 0x110000))); put(0xFFFF); put(0x10000); put(0x10FFFF);
  if (r.chance(1, 2)) for (size_t i = text.size(); i > 1; i--) std::swap(text[i - 1], text[r.below(i)]);
  if (text.size() > 3000) text.resize(3000);
  BLGlyphBuffer gb; VH_OK(gb.set_utf32_text(text.data(), text.size()), "cmap"); VH_CHECK(gb.size() == text.size() && gb.has_text(), "cmap", "glyph buffer holds %zu of %zu characters", gb.size(), text.size());
  BLGlyphMappingState ms; memset(&ms, 0x5A, sizeof ms); BLResult e = font.map_text_to_glyphs(gb, ms);
  if (!c) { count(e == BL_SUCCESS ? "p20_nocmap_ok" : "p20_nocmap_err"); if (e != BL_SUCCESS) { BLBitSet cov; return; } } else VH_CHECK(e == BL_SUCCESS, "cmap", "map_text_to_glyphs of format %d: %u", c->format, e);
  size_t undef = 0, first = SIZE_MAX;
  for (size_t i = 0; i < text.size(); i++) { uint32_t w = want(text[i]); if (!w) { if (!undef++) first = i; } VH_CHECK(gb.content()[i] == w, "cmap", "format %d maps U+%04X to %u, expected %u", c ? c->format : -1, text[i], gb.content()[i], w); }
  VH_CHECK(ms.undefined_count == undef && ms.undefined_first == first && ms.glyph_count == text.size(), "cmap-state", "format %d: undefined %zu (first %zu), glyphs %zu; expected %zu (%zd), %zu", c ? c->format : -1, ms.undefined_count, ms.undefined_first, ms.glyph_count, undef, ssize_t(first), text.size());
  VH_CHECK(!gb.has_text() && gb.has_undefined_chars() == (undef > 0), "cmap-state", "flags %x with %zu undefined characters", gb.flags(), undef);
  evals(text.size()); if (c) { char nm[32]; snprintf(nm, sizeof nm, "p20_cmap_format%d", c->format); count(nm, text.size()); }
  BLBitSet cov; e = ff.get_character_coverage(&cov);
  if (c) {
    VH_CHECK(e == BL_SUCCESS, "coverage", "get_character_coverage: %u", e); size_t n = 0; for (auto& kv : c->map) if (kv.second) n++;
    VH_CHECK(cov.cardinality() == n, "coverage", "format %d: coverage of %zu characters, expected %zu", c->format, size_t(cov.cardinality()), n);
    for (auto& kv : c->map) if (kv.second) VH_CHECK(cov.has_bit(kv.first), "coverage", "format %d: U+%04X isn't covered", c->format, kv.first);
    evals(n);
  }
}
static void p20_metrics(Rng& r, const fg::Font& f, const BLFontFace& ff, BLFont& font, float size) {
  BLFontDesignMetrics dm = ff.design_metrics(); int w[9]; bool os2 = f.with_os2, typo = os2 && f.use_typo; // The hhea table counts unless OS/2 says otherwise.
  w[0] = int(f.upem); w[1] = typo ? f.typo_asc : f.asc; w[2] = abs(typo ? f.typo_desc : f.desc); w[3] = typo ? f.typo_gap : f.gap; w[4] = os2 && f.os2_version >= 2 ? f.xheight : 0; w[5] = os2 && f.os2_version >= 2 ? f.capheight : 0;
  VH_CHECK(dm.units_per_em == w[0] && dm.ascent == w[1] && dm.descent == w[2] && dm.line_gap == w[3] && dm.x_height == w[4] && dm.cap_height == w[5], "design-metrics", "upem %d asc %d desc %d gap %d xh %d ch %d, expected %d %d %d %d %d %d (typo %d os2 v%d)", dm.units_per_em, dm.ascent, dm.descent, dm.line_gap, dm.x_height, dm.cap_height, w[0], w[1], w[2], w[3], w[4], w[5], typo, os2 ? f.os2_version : -1);
  if (f.with_post) VH_CHECK(dm.underline_thickness == f.underline_th && dm.underline_position == -(f.underline_pos + f.underline_th), "design-metrics", "underline %d %d", dm.underline_position, dm.underline_thickness);
  if (os2) VH_CHECK(dm.strikethrough_thickness == f.strike_th && dm.strikethrough_position == -(f.strike_pos + f.strike_th), "design-metrics", "strikethrough %d %d", dm.strikethrough_position, dm.strikethrough_thickness);
  VH_CHECK(ff.glyph_count() == uint32_t(f.glyph_count) && ff.units_per_em() == int(f.upem), "face-info", "glyph count %u, upem %d", ff.glyph_count(), ff.units_per_em());
  if (os2) { uint32_t we = f.weight; if (we >= 1 && we <= 9) we *= 100; if (!we) we = 400; if (we > 999) we = 999; uint32_t sd = f.stretch ? f.stretch : 5; if (sd > 9) sd = 9; VH_CHECK(ff.weight() == we && ff.stretch() == sd && ff.style() == (f.style == 2 ? BL_FONT_STYLE_ITALIC : f.style == 1 ? BL_FONT_STYLE_OBLIQUE : BL_FONT_STYLE_NORMAL), "face-info", "weight %u stretch %u style %u, file %u %u %u", ff.weight(), ff.stretch(), ff.style(), f.weight, f.stretch, f.style); }
  double s = double(size) / double(f.upem); BLFontMetrics m = font.metrics(); auto C = [&](float got, double want, const char* n) { VH_CHECK(fabs(got - want) <= 1e-5 * (1 + fabs(want)), "font-metrics", "%s is %g, expected %g (size %g upem %u)", n, got, want, size, f.upem); };
  C(m.size, size, "size"); C(m.ascent, w[1] * s, "ascent"); C(m.descent, w[2] * s, "descent"); C(m.line_gap, w[3] * s, "line_gap"); C(m.x_height, w[4] * s, "x_height"); C(m.cap_height, w[5] * s, "cap_height"); C(m.underline_thickness, dm.underline_thickness * s, "underline_thickness"); C(m.underline_position, dm.underline_position * s, "underline_position"); C(m.strikethrough_position, dm.strikethrough_position * s, "strikethrough_position"); C(m.strikethrough_thickness, dm.strikethrough_thickness * s, "strikethrough_thickness");
  BLFontMatrix fm = font.matrix(); VH_CHECK(fabs(fm.m00 - s) < 1e-12 + s * 1e-7 && fabs(fm.m11 + s) < 1e-12 + s * 1e-7 && fm.m01 == 0 && fm.m10 == 0, "font-matrix", "%g %g %g %g, scale %g", fm.m00, fm.m01, fm.m10, fm.m11, s);
  // Advances.
  size_t n = 1 + r.below(20); std::vector<uint32_t> st(n * 3 + 1); intptr_t adv = 4 * intptr_t(r.range(1, 3)); std::vector<uint32_t> ids; for (size_t i = 0; i < n; i++) { uint32_t g = uint32_t(r.below(uint64_t(f.glyph_count))); ids.push_back(g); st[i * size_t(adv / 4)] = g; }
  std::vector<BLGlyphPlacement> pl(n); memset((void*)pl.data(), 0x5A, n * sizeof(BLGlyphPlacement)); VH_OK(font.get_glyph_advances(st.data(), adv, pl.data(), n), "advances");
  for (size_t i = 0; i < n; i++) { int a = f.advance[size_t(std::min<int>(int(ids[i]), f.long_metrics - 1))]; VH_CHECK(pl[i].advance.x == a && pl[i].advance.y == 0 && pl[i].placement.x == 0 && pl[i].placement.y == 0, "advances", "glyph %u advances by %d, expected %d", ids[i], pl[i].advance.x, a); }
  // Bounds.
  std::vector<BLBoxI> bx(n); VH_OK(font.get_glyph_bounds(st.data(), adv, bx.data(), n), "bounds");
  for (size_t i = 0; i < n; i++) {
    const fg::Glyph& g = f.glyphs[ids[i]]; BLBoxI b = bx[i];
    if (!f.is_cff) { BLBoxI e(0, 0, 0, 0); if (g.kind) e.reset(g.bbox[0], -g.bbox[3], g.bbox[2], -g.bbox[1]); VH_CHECK(b == e, "bounds", "glyph %u has bounds [%d %d %d %d], expected [%d %d %d %d]", ids[i], b.x0, b.y0, b.x1, b.y1, e.x0, e.y0, e.x1, e.y1); }
    else { double q[4]; auto F = [](int v, double x) { return v >= floor(x - 1e-6) && v <= floor(x + 1e-6); }; auto K = [](int v, double x) { return v >= ceil(x - 1e-6) && v <= ceil(x + 1e-6); };
      bool same = false; for (int lone = 0; lone < 2 && !same; lone++) { if (!sbox(g.cff_outline, q, lone)) { same = b == BLBoxI(0, 0, 0, 0); continue; } double t = q[1]; q[1] = -q[3]; q[3] = -t; same = F(b.x0, q[0]) && F(b.y0, q[1]) && K(b.x1, q[2]) && K(b.y1, q[3]); }
      VH_CHECK(same, "bounds", "CFF glyph %u has bounds [%d %d %d %d], its outline [%g %g %g %g]", ids[i], b.x0, b.y0, b.x1, b.y1, q[0], q[1], q[2], q[3]); count("p20_cff_bounds"); }
  }
  // Placements and text metrics of glyphs.
  BLGlyphBuffer gb; VH_OK(gb.set_glyphs(ids.data(), n), "text-metrics"); VH_OK(font.position_glyphs(gb), "text-metrics"); double total = 0; for (size_t i = 0; i < n; i++) { int a = f.advance[size_t(std::min<int>(int(ids[i]), f.long_metrics - 1))]; VH_CHECK(gb.placement_data()[i].advance.x == a && gb.content()[i] == ids[i], "text-metrics", "placement of glyph %u: content %u, advance %d, expected %d", ids[i], gb.content()[i], gb.placement_data()[i].advance.x, a); total += a; }
  BLTextMetrics tm; VH_OK(font.get_text_metrics(gb, tm), "text-metrics"); VH_CHECK(fabs(tm.advance.x - total * s) <= 1e-6 * (1 + total * s) && tm.advance.y == 0, "text-metrics", "advance %g, expected %g", tm.advance.x, total * s);
  evals(3 * n + 20);
}
static void p20(uint64_t id, Rng& r) {
  bool big = id % 97 == 13; fg::Font f = fg::random_font(r, big); Bytes data = f.build(r); // build() drops the map entries that a format can't express.
  BLFontFace ff;
  if (!big && r.chance(1, 5)) { // one face of a collection
    std::vector<Bytes> fonts(1 + r.below(4)); uint32_t at = uint32_t(r.below(fonts.size())); for (size_t i = 0; i < fonts.size(); i++) if (i == at) fonts[i] = data; else { fg::Font o = fg::random_font(r, false); fonts[i] = o.build(r); }
    ff = make_collection_face(r, make_collection(r, fonts), fonts.size(), at);
  }
  else ff = make_face(data);
  float size = r.chance(1, 4) ? float(f.upem) : r.chance(1, 4) ? float(r.dbl(0.5, 500)) : float(r.range(1, 200)); BLFont font; VH_OK(font.create_from_face(ff, size), "create-font");
  if (r.chance(1, 3)) { size *= 1.5f; VH_OK(font.set_size(size), "set-size"); }
  VH_CHECK(font.size() == size, "set-size", "size %g, expected %g", font.size(), size);
  p20_cmap(r, f, ff, font); p20_metrics(r, f, ff, font, size);
  double s = double(size) / double(f.upem); uint64_t h = 0;
  size_t checked = 0, segs = 0;
  for (int gid = 0; gid < f.glyph_count; gid++) {
    const fg::Glyph& g = f.glyphs[size_t(gid)]; if (f.glyph_count > 100 && !g.kind && g.cff_outline.empty() && !r.chance(1, 40)) continue; if (r.chance(1, 6)) continue;
    BLMatrix2D um = BLMatrix2D::make_identity(); bool use = r.chance(1, 2); if (use) { switch (r.below(4)) { case 0: um.reset(1, 0, 0, 1, r.dbl(-100, 100), r.dbl(-100, 100)); break; case 1: um.reset(r.dbl(-3, 3), 0, 0, r.dbl(-3, 3), r.dbl(-10, 10), 5); break; case 2: um.reset(0, 2, -2, 0, 1, 1); break; default: um.reset(r.dbl(-3, 3), r.dbl(-3, 3), r.dbl(-3, 3), r.dbl(-3, 3), r.dbl(-50, 50), r.dbl(-50, 50)); } }
    Outline want; fg::outline_of(f, gid, want); BLMatrix2D m(s * um.m00, s * um.m01, -s * um.m10, -s * um.m11, um.m20, um.m21);
    BLPath p; bool pre = r.chance(1, 4); if (pre) { p.move_to(1, 2); p.line_to(3, 4); p.close(); if (r.chance(1, 3)) { BLPath hold = p; (void)hold; } }
    BLPath keep = p; size_t before = p.size(); SinkLog lg; bool sink = r.chance(1, 3); BLResult e = use ? font.get_glyph_outlines(uint32_t(gid), um, p, sink ? log_sink : nullptr, &lg) : font.get_glyph_outlines(uint32_t(gid), p, sink ? log_sink : nullptr, &lg);
    std::string what = std::string(f.is_cff ? "CFF" : g.kind == 2 ? "composite" : "simple") + " glyph " + std::to_string(gid);
    VH_CHECK(e == BL_SUCCESS, "outline", "%s: error %u", what.c_str(), e);
    if (sink) VH_CHECK(lg.calls == 1 && lg.sizes[0] == p.size(), "outline-sink", "%zu calls", lg.calls);
    if (pre) { VH_CHECK(keep.size() == before && p.size() >= before && memcmp(keep.vertex_data(), p.vertex_data(), before * sizeof(BLPoint)) == 0 && memcmp(keep.command_data(), p.command_data(), before) == 0, "outline-append", "%s: the path's previous content changed", what.c_str()); BLPath q; q.add_path(p, BLRange{before, SIZE_MAX}); p = q; }
    check_outline(p, want, m, "outline", what); checked++; for (auto& k : want) { segs += k.segs.size(); for (auto& sg : k.segs) h = h * 31 + uint64_t(sg.n); } h = h * 131 + want.size();
    if (g.kind == 2) count("p20_composites"); if (f.is_cff && !want.empty()) count("p20_cff_glyphs"); if (g.kind == 1) { count("p20_simple_glyphs"); size_t tot = 0; for (auto& k : g.tt) tot += k.size(); if (tot > 32767) count("p20_huge_glyphs"); }
  }
  // Glyph runs.
  size_t n = 1 + r.below(6); std::vector<uint32_t> ids; std::vector<BLGlyphPlacement> pl; std::vector<BLPoint> pts; for (size_t i = 0; i < n; i++) { ids.push_back(uint32_t(r.below(uint64_t(f.glyph_count)))); BLGlyphPlacement q; q.placement.reset(int(r.range(-500, 500)), int(r.range(-500, 500))); q.advance.reset(int(r.range(0, 1500)), int(r.range(-100, 100))); pl.push_back(q); pts.push_back(BLPoint(r.dbl(-500, 500), r.dbl(-500, 500))); }
  BLGlyphRun run; memset(&run, 0, sizeof run); run.glyph_data = ids.data(); run.size = n; run.glyph_advance = 4; int pt = int(r.below(4)); run.placement_type = uint8_t(pt);
  if (pt == BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET) { run.placement_data = pl.data(); run.placement_advance = sizeof(BLGlyphPlacement); } else if (pt) { run.placement_data = pts.data(); run.placement_advance = sizeof(BLPoint); }
  BLMatrix2D um(r.dbl(-2, 2), r.dbl(-2, 2), r.dbl(-2, 2), r.dbl(-2, 2), r.dbl(-30, 30), r.dbl(-30, 30)); bool use = r.chance(1, 2); if (!use) um = BLMatrix2D::make_identity();
  Outline all; double ax = 0, ay = 0; for (size_t i = 0; i < n; i++) { Outline o; fg::outline_of(f, int(ids[i]), o); double dx = 0, dy = 0; if (pt == BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET) { dx = ax + pl[i].placement.x; dy = ay + pl[i].placement.y; ax += pl[i].advance.x; ay += pl[i].advance.y; } else if (pt == BL_GLYPH_PLACEMENT_TYPE_DESIGN_UNITS) { dx = pts[i].x; dy = pts[i].y; } else if (pt == BL_GLYPH_PLACEMENT_TYPE_USER_UNITS) { dx = pts[i].x / s; dy = -pts[i].y / s; }
    for (auto& k : o) { auto T = [&](Pt& q) { q.x += dx; q.y += dy; }; T(k.start); for (auto& sg : k.segs) for (int j = 0; j < sg.n; j++) T(sg.p[j]); all.push_back(k); } }
  BLPath p; SinkLog lg; BLResult e = use ? font.get_glyph_run_outlines(run, um, p, log_sink, &lg) : font.get_glyph_run_outlines(run, p, log_sink, &lg); VH_CHECK(e == BL_SUCCESS, "run-outline", "error %u", e);
  VH_CHECK(lg.calls == n, "run-sink", "%zu sink calls for %zu glyphs", lg.calls, n); for (size_t i = 0; i < n; i++) VH_CHECK(lg.idx[i] == i, "run-sink", "call %zu has index %zu", i, lg.idx[i]);
  BLMatrix2D m(s * um.m00, s * um.m01, -s * um.m10, -s * um.m11, um.m20, um.m21); check_outline(p, all, m, "run-outline", "run with placement type " + std::to_string(pt)); count("p20_runs");
  count("p20_outlines", checked); count("p20_segments", segs); if (segs) distinct(h);
  if (id % 50 == 0) sample("%s font of %zu bytes, %d glyphs, %zu outlines of %zu segments, %zu character maps", f.is_cff ? "CFF" : "TrueType", data.size(), f.glyph_count, checked, segs, f.cmaps.size());
}
