// Random fonts with a known meaning, made with fontgen.inc.
namespace fg {

// Writes a Type 2 charstring and, independently of the library, the outline that it describes.
struct CharString {
  Rng& r; Font& f; Buf b; Outline out; double x = 0, y = 0; int on_stack = 0, stems = 0; bool width_done = false, width_wanted = false; bool arith, frac, subs; int amp; int depth = 0;
  CharString(Rng& r_, Font& f_) : r(r_), f(f_) { arith = r.chance(1, 3); frac = r.chance(1, 4); subs = r.chance(1, 2); amp = r.chance(1, 4) ? 900 : 120; width_wanted = r.chance(1, 3); }
  void op(int o) { if (o >= 256) { b.u8(12); b.u8(uint32_t(o - 256)); } else b.u8(uint32_t(o)); }
  void raw(double v) {
    double fl = floor(v);
    if (fl == v && v >= -32768 && v <= 32767) {
      int i = int(v), how = int(r.below(8));
      if (how < 6 && i >= -107 && i <= 107) { b.u8(uint32_t(i + 139)); return; }
      if (how < 6 && i >= 108 && i <= 1131) { b.u8(uint32_t(247 + (i - 108) / 256)); b.u8(uint32_t(i - 108)); return; }
      if (how < 6 && i <= -108 && i >= -1131) { b.u8(uint32_t(251 + (-i - 108) / 256)); b.u8(uint32_t(-i - 108)); return; }
      if (how < 7) { b.u8(28); b.u16(uint32_t(i)); return; }
    }
    b.u8(255); b.u32(uint32_t(int32_t(v * 65536.0)));
  }
  void num(double v) {
    on_stack++;
    if (!arith || on_stack > 24 || !r.chance(1, 4)) { raw(v); return; }
    double a = double(r.range(-300, 300));
    switch (r.below(16)) {
      case 0: raw(v - a); raw(a); op(256 + 10); break;                       // add
      case 1: raw(v + a); raw(a); op(256 + 11); break;                       // sub
      case 2: raw(-v); op(256 + 14); break;                                  // neg
      case 3: raw(v); raw(a); op(256 + 18); break;                           // drop
      case 4: raw(a); raw(v); op(256 + 28); op(256 + 18); break;             // exch drop
      case 5: raw(v); op(256 + 27); op(256 + 18); break;                     // dup drop
      case 6: if (v >= 0) { raw(r.chance(1, 2) ? v : -v); op(256 + 9); } else { raw(v * 2); raw(2); op(256 + 12); } break; // abs, div
      case 7: { int k = int(r.range(0, 31)); raw(v); raw(k); op(256 + 20); raw(k); op(256 + 21); break; } // put get
      case 8: { bool t = r.chance(1, 2); double p = double(r.range(-9, 9)), q = p + double(r.range(0, 5)); raw(t ? v : a); raw(t ? a : v); if (t) { raw(p); raw(q); } else { raw(q + 1); raw(p); } op(256 + 22); break; } // ifelse: s1 if v1 <= v2
      case 9: { int e = int(r.below(5)); double o[6]; for (int i = 0; i < 6; i++) o[i] = double(r.range(-50, 50)); o[e] = v; for (int i = 5; i >= 0; i--) raw(o[i]); raw(e); op(256 + 29); // index
        // v on the top of 6 others: store it, drop the rest.
        raw(5); op(256 + 20); for (int i = 0; i < 6; i++) op(256 + 18); raw(5); op(256 + 21); break; }
      case 10: { raw(1); int n = int(r.range(2, 5)), j = int(r.range(-7, 7)); std::vector<double> o; for (int i = 0; i < n; i++) o.push_back(double(r.range(-50, 50))); int at = int(r.below(uint32_t(n))); // element `at` (0 bottom) moves up by j
        int to = ((at + j) % n + n) % n; o[size_t(at)] = v; for (double q : o) raw(q); raw(n); raw(j); op(256 + 30); for (int i = n - 1; i > to; i--) op(256 + 18); raw(9); op(256 + 20); for (int i = 0; i < to; i++) op(256 + 18); op(256 + 18); raw(9); op(256 + 21); break; }
      case 11: if (fabs(v) <= 8000) { raw(v * 2); raw(0.5); op(256 + 24); } else raw(v); break;                    // mul
      case 12: { bool t = r.chance(1, 2); raw(v - (t ? 1 : 0)); raw(a); raw(t ? a : a + 1); op(256 + 15); op(256 + 10); break; } // eq add
      case 13: { int p = int(r.below(2)), q = int(r.below(2)); int res = 0, o = 0; if (r.chance(1, 2)) { o = 256 + 3; res = p && q; } else { o = 256 + 4; res = p || q; } raw(v - res); raw(p * 7); raw(q * -3); op(o); op(256 + 10); break; } // and or
      case 14: { int p = int(r.below(2)); raw(v - (p ? 0 : 1)); raw(p * 4); op(256 + 5); op(256 + 10); break; } // not
      default: { raw(v - 12); raw(144); op(256 + 26); op(256 + 10); break; } // sqrt
    }
  }
  double delta() { double v = double(r.range(-amp, amp)); if (frac && r.chance(1, 2)) v += double(r.range(-32768, 32767)) / 65536.0; if (r.chance(1, 10)) v = 0; return v; }
  void clear(int o) { op(o); on_stack = 0; }
  void width() { if (!width_done) { width_done = true; if (width_wanted) num(double(r.range(-200, 200))); } }
  void mask(int o) { op(o); on_stack = 0; for (int i = 0; i < (stems + 7) / 8; i++) b.u8(r.u32()); }
  void stem_args() { int n = int(r.range(1, 8)); for (int i = 0; i < n * 2; i++) { raw(double(r.range(-60, 60))); on_stack++; } stems += n; }
  void L(double dx, double dy) { x += dx; y += dy; out.back().segs.push_back(Seg{1, {{x, y}, {0, 0}, {0, 0}}}); }
  void C(double a, double b_, double c, double d, double e, double g) { Seg s; s.n = 3; s.p[0] = {x + a, y + b_}; s.p[1] = {s.p[0].x + c, s.p[0].y + d}; s.p[2] = {s.p[1].x + e, s.p[1].y + g}; x = s.p[2].x; y = s.p[2].y; out.back().segs.push_back(s); }
  void move() {
    width(); double dx = delta(), dy = delta();
    switch (r.below(3)) { case 0: num(dx); num(dy); clear(21); break; case 1: dy = 0; num(dx); clear(22); break; default: dx = 0; num(dy); clear(4); break; }
    x += dx; y += dy; Contour c; c.start = {x, y}; out.push_back(c);
  }
  void draw() {
    double v[64]; auto D = [&](int n) { for (int i = 0; i < n; i++) { v[i] = delta(); num(v[i]); } };
    switch (r.below(17)) {
      case 0: case 1: { int n = int(r.range(1, 12)); D(2 * n); clear(5); for (int i = 0; i < n; i++) L(v[2 * i], v[2 * i + 1]); break; }
      case 2: case 3: { int n = int(r.range(1, 14)); bool h = r.chance(1, 2); D(n); clear(h ? 6 : 7); for (int i = 0; i < n; i++, h = !h) L(h ? v[i] : 0, h ? 0 : v[i]); break; }
      case 4: case 5: { int n = int(r.range(1, 5)); D(6 * n); clear(8); for (int i = 0; i < n; i++) C(v[6*i], v[6*i+1], v[6*i+2], v[6*i+3], v[6*i+4], v[6*i+5]); break; }
      case 6: { int n = int(r.range(1, 4)); D(6 * n + 2); clear(24); for (int i = 0; i < n; i++) C(v[6*i], v[6*i+1], v[6*i+2], v[6*i+3], v[6*i+4], v[6*i+5]); L(v[6*n], v[6*n+1]); break; }
      case 7: { int n = int(r.range(1, 8)); D(2 * n + 6); clear(25); for (int i = 0; i < n; i++) L(v[2*i], v[2*i+1]); double* q = v + 2 * n; C(q[0], q[1], q[2], q[3], q[4], q[5]); break; }
      case 8: { int n = int(r.range(1, 6)), o = int(r.below(2)); D(4 * n + o); clear(26); for (int i = 0; i < n; i++) { double* q = v + o + 4 * i; C(i == 0 && o ? v[0] : 0, q[0], q[1], q[2], 0, q[3]); } break; }
      case 9: { int n = int(r.range(1, 6)), o = int(r.below(2)); D(4 * n + o); clear(27); for (int i = 0; i < n; i++) { double* q = v + o + 4 * i; C(q[0], i == 0 && o ? v[0] : 0, q[1], q[2], q[3], 0); } break; }
      case 10: case 11: case 12: { int n = int(r.range(1, 6)), o = int(r.below(2)); bool h = r.chance(1, 2); D(4 * n + o); clear(h ? 31 : 30);
        for (int i = 0; i < n; i++, h = !h) { double* q = v + 4 * i; double last = i == n - 1 && o ? v[4 * n] : 0; if (h) C(q[0], 0, q[1], q[2], last, q[3]); else C(0, q[0], q[1], q[2], q[3], last); } break; }
      case 13: { D(12); num(50); clear(256 + 35); C(v[0], v[1], v[2], v[3], v[4], v[5]); C(v[6], v[7], v[8], v[9], v[10], v[11]); break; }          // flex
      case 14: { D(7); clear(256 + 34); C(v[0], 0, v[1], v[2], v[3], 0); C(v[4], 0, v[5], -v[2], v[6], 0); break; }                                   // hflex
      case 15: { D(9); clear(256 + 36); C(v[0], v[1], v[2], v[3], v[4], 0); C(v[5], 0, v[6], v[7], v[8], -(v[1] + v[3] + v[7])); break; }             // hflex1
      default: { D(11); clear(256 + 37); double dx = v[0] + v[2] + v[4] + v[6] + v[8], dy = v[1] + v[3] + v[5] + v[7] + v[9]; bool h = fabs(dx) > fabs(dy); C(v[0], v[1], v[2], v[3], v[4], v[5]); C(v[6], v[7], v[8], v[9], h ? v[10] : -dx, h ? -dy : v[10]); break; } // flex1
    }
  }
  // Moves the bytes written since `at` into a subroutine and calls it.
  void outline_sub(size_t at) {
    Buf s; s.d.assign(b.d.begin() + long(at), b.d.end()); s.u8(11); b.d.resize(at);
    bool g = r.chance(1, 2); auto& v = g ? f.gsubrs : f.lsubrs; if (v.size() > 200) g = !g; auto& w = g ? f.gsubrs : f.lsubrs; w.push_back(s);
    raw(double(int(w.size() - 1) - 107)); op(g ? 29 : 10);
  }
  void run() {
    if (r.chance(1, 2)) {
      width(); bool hm = r.chance(1, 2); stem_args(); clear(hm ? 18 : 1);
      if (hm) { bool implied = r.chance(1, 2); if (r.chance(2, 3)) { stem_args(); if (!implied) clear(23); else { mask(r.chance(1, 2) ? 19 : 20); } } if (!implied || r.chance(1, 2)) mask(r.chance(1, 3) ? 20 : 19); }
      else if (r.chance(1, 2)) { stem_args(); clear(3); }
    }
    int nc = int(r.range(0, 4));
    for (int c = 0; c < nc; c++) {
      size_t c0 = b.size(); move(); int n = int(r.skew(8));
      for (int i = 0; i < n; i++) { size_t at = b.size(); draw(); if (stems && r.chance(1, 12)) mask(19); if (subs && r.chance(1, 4)) { outline_sub(at); if (r.chance(1, 3)) outline_sub(at); } }
      if (subs && depth == 0 && r.chance(1, 8)) outline_sub(c0);
    }
    width(); op(14);
  }
};

inline int clamp16(int v) { return v < -32768 ? -32768 : v > 32767 ? 32767 : v; }

inline Glyph random_tt_glyph(Rng& r, const Font& f, int gid, bool big) {
  Glyph g; int k = int(r.below(12));
  if (k == 0) return g;
  if (k == 1) { g.kind = 3; }
  else if (k <= 4 && gid > 1) {
    g.kind = 2; int n = int(r.range(1, 4));
    for (int i = 0; i < n; i++) {
      Component c; c.gid = int(r.below(uint64_t(gid))); c.words = r.chance(1, 2); c.dx = c.words ? int(r.range(-2000, 2000)) : int(r.range(-128, 127)); c.dy = c.words ? int(r.range(-2000, 2000)) : int(r.range(-128, 127)); c.mode = int(r.below(4));
      auto F = [&] { return r.chance(1, 4) ? int(r.range(-32768, 32767)) : r.chance(1, 2) ? 16384 : int(r.range(-2, 1)) * 16384; };
      if (c.mode) { c.m[0] = F(); c.m[3] = c.mode == 1 ? c.m[0] : F(); c.m[1] = c.mode == 3 ? F() : 0; c.m[2] = c.mode == 3 ? F() : 0; }
      if (c.mode == 1 || c.mode == 2) { c.scaled_offset = r.chance(1, 4); c.unscaled_offset = !c.scaled_offset && r.chance(1, 4); } else c.unscaled_offset = r.chance(1, 4);
      g.comps.push_back(c);
    }
  } else {
    g.kind = 1; int nc = int(r.range(1, 5)), amp = r.chance(1, 5) ? 16000 : r.chance(1, 3) ? 60 : 900, style = int(r.below(5)); size_t points = 0, budget = big ? 40000 : r.chance(1, 8) ? 400 : 40; // Point indices have 16 bits.
    for (int c = 0; c < nc; c++) {
      size_t n = style == 4 && r.chance(1, 3) ? 1 : r.chance(1, 10) ? 1 + r.below(3) : big ? 1 + r.below(budget) : 2 + r.below(budget); if (points + n > 65536) break; points += n; std::vector<TTPoint> v; int x = int(r.range(-amp, amp)), y = int(r.range(-amp, amp));
      for (size_t i = 0; i < n; i++) {
        bool on = style == 0 ? true : style == 1 ? r.chance(1, 2) : style == 2 ? (i & 1) == 0 : style == 3 ? r.chance(1, 8) : r.chance(3, 4);
        if (style == 3 && r.chance(1, 6) && i + 1 == n) on = false;
        v.push_back(TTPoint{x, y, on});
        int step = r.chance(1, 3) ? 2 * amp : 200; int nx = x + int(r.range(-step, step)), ny = y + int(r.range(-step, step)); if (r.chance(1, 5)) nx = x; if (r.chance(1, 5)) ny = y; x = std::max(-amp, std::min(amp, nx)); y = std::max(-amp, std::min(amp, ny));
      }
      g.tt.push_back(v);
    }
  }
  for (int i = 0; i < 2; i++) { int a = int(r.range(-3000, 3000)), b = a + int(r.below(3000)); g.bbox[i] = a; g.bbox[i + 2] = b; }
  if (g.kind == 2) { size_t total = 0; std::function<void(int)> cnt = [&](int q) { for (auto& c : f.glyphs[size_t(q)].tt) total += c.size(); for (auto& c : f.glyphs[size_t(q)].comps) if (total < 6000) cnt(c.gid); }; for (auto& c : g.comps) cnt(c.gid); if (total >= 6000) { g.comps.clear(); g.kind = 0; } }
  return g;
}

inline void random_cmaps(Rng& r, Font& f) {
  int n = int(r.range(0, 3)); if (r.chance(1, 2) && n == 0) n = 1;
  static const int pe[][2] = {{3, 1}, {3, 10}, {0, 3}, {0, 4}, {1, 0}, {3, 1}, {3, 10}}; std::set<int> used;
  auto gid = [&] { return uint32_t(r.below(uint64_t(f.glyph_count))); };
  for (int i = 0; i < n; i++) {
    CMapSub c; int q = int(r.below(7)); c.platform = pe[q][0]; c.encoding = pe[q][1]; if (!used.insert(c.platform * 16 + c.encoding).second) continue;
    static const int fm[] = {0, 4, 4, 4, 6, 10, 12, 12, 13}; c.format = c.platform == 1 ? 0 : r.pick(fm);
    uint32_t limit = c.format == 0 ? 256 : (c.format == 4 || c.format == 6) ? 0xFFFF : 0x110000;
    if (c.format == 0) { for (uint32_t u = 0; u < 256; u++) if (r.chance(1, 2)) { uint32_t g = gid() & 255; if (g) c.map[u] = g; } }
    else if (c.format == 6 || c.format == 10) {
      uint32_t len = 1 + uint32_t(r.skew(500)), lo = r.chance(1, 8) ? limit - len : uint32_t(r.below(r.chance(1, 2) ? 300 : limit - len)); if (c.format == 6 && r.chance(1, 8)) lo = 0x10000 - len;
      for (uint32_t u = lo; u < lo + len; u++) if (u == lo || u == lo + len - 1 || r.chance(3, 4)) c.map[u] = gid();
    } else {
      int runs = int(r.skew(60)) + (c.format == 4 ? 0 : 1); uint32_t u = uint32_t(r.below(300)); bool wide = r.chance(1, 2); if (r.chance(1, 10)) u = 0;
      for (int k = 0; k < runs; k++) {
        uint32_t len = 1 + uint32_t(r.skew(40)), g = gid(); int how = int(r.below(3));
        for (uint32_t j = 0; j < len && u < limit; j++, u++) { uint32_t v = how == 0 ? g + j : how == 1 ? g : gid(); if (v < uint32_t(f.glyph_count)) c.map[u] = v; }
        u += uint32_t(r.skew(wide ? limit / 64 : 40)); if (c.format != 4 && r.chance(1, 20)) u = limit - uint32_t(r.below(100));
      }
      if (c.map.empty()) c.map[65] = gid();
    }
    // Zero is the missing glyph, which formats 12 and 13 can also assign explicitly.
    f.cmaps.push_back(c);
  }
  std::sort(f.cmaps.begin(), f.cmaps.end(), [](const CMapSub& a, const CMapSub& b) { return a.platform != b.platform ? a.platform < b.platform : a.encoding < b.encoding; });
}

inline Font random_font(Rng& r, bool big = false) {
  Font f; f.upem = r.chance(1, 2) ? (r.chance(1, 2) ? 1000 : 2048) : uint32_t(r.range(16, 16384)); f.is_cff = r.chance(2, 5); f.loca32 = big || r.chance(1, 2);
  f.glyph_count = 1 + int(r.skew(r.chance(1, 10) ? 1500 : 40)); if (big) f.glyph_count = 4;
  bool many = f.glyph_count > 100;
  for (int i = 0; i < f.glyph_count; i++) {
    Glyph g;
    if (f.is_cff) { CharString cs(r, f); if (many && !r.chance(1, 20)) cs.op(14); else cs.run(); g.cff = cs.b; g.cff_outline = cs.out; }
    else if (!many || r.chance(1, 20)) g = random_tt_glyph(r, f, i, big && i == 0);
    f.glyphs.push_back(g);
  }
  if (!f.is_cff && !f.loca32) { size_t tot = 0; for (auto& g : f.glyphs) { for (auto& c : g.tt) tot += c.size() * 5; tot += 120; } if (tot > 100000) f.loca32 = true; }
  f.long_metrics = 1 + int(r.below(uint64_t(f.glyph_count)));
  for (int i = 0; i < f.glyph_count; i++) { f.advance.push_back(r.chance(1, 20) ? int(r.below(65536)) : int(r.below(2000))); f.lsb.push_back(int(r.range(-500, 500))); }
  auto S = [&] { return int(r.range(-3000, 3000)); };
  f.asc = S(); f.desc = S(); f.gap = S(); f.typo_asc = S(); f.typo_desc = S(); f.typo_gap = S(); f.xheight = S(); f.capheight = S(); f.underline_pos = S(); f.underline_th = int(r.below(300)); f.strike_pos = S(); f.strike_th = int(r.below(300));
  f.use_typo = r.chance(1, 2); f.with_os2 = r.chance(4, 5); f.with_post = r.chance(4, 5); f.os2_version = int(r.below(5));
  f.weight = r.chance(1, 3) ? uint32_t(r.below(1300)) : uint32_t(r.range(1, 9)) * (r.chance(1, 2) ? 100 : 1); f.stretch = uint32_t(r.below(12)); f.style = uint32_t(r.below(3));
  int x0 = int(r.range(-3000, 0)), y0 = int(r.range(-3000, 0)); f.head_bbox[0] = x0; f.head_bbox[1] = y0; f.head_bbox[2] = x0 + int(r.below(5000)); f.head_bbox[3] = y0 + int(r.below(5000));
  random_cmaps(r, f);
  return f;
}

} // fg
