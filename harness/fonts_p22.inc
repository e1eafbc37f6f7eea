// P22: text of every encoding. The oracle decodes code units by itself.
enum { L1 = BL_TEXT_ENCODING_LATIN1, U8 = BL_TEXT_ENCODING_UTF8, U16 = BL_TEXT_ENCODING_UTF16, U32 = BL_TEXT_ENCODING_UTF32 };
static const int unit_size[4] = {1, 2, 4, 1};
static void enc(std::vector<uint32_t>& o, int e, uint32_t c) {
  if (e == U8) {
    if (c < 0x80) o.push_back(c); else if (c < 0x800) { o.push_back(0xC0 | c >> 6); o.push_back(0x80 | (c & 63)); }
    else if (c < 0x10000) { o.push_back(0xE0 | c >> 12); o.push_back(0x80 | (c >> 6 & 63)); o.push_back(0x80 | (c & 63)); }
    else { o.push_back(0xF0 | c >> 18); o.push_back(0x80 | (c >> 12 & 63)); o.push_back(0x80 | (c >> 6 & 63)); o.push_back(0x80 | (c & 63)); }
  } else if (e == U16 && c >= 0x10000) { o.push_back(0xD800 + ((c - 0x10000) >> 10)); o.push_back(0xDC00 + ((c - 0x10000) & 0x3FF)); }
  else o.push_back(c);
}
struct Dec { std::vector<uint32_t> c, at; bool bad = false; };
// A unit that doesn't start a well formed sequence is replaced alone. Surrogates that aren't paired stand for themselves.
static Dec decode(const std::vector<uint32_t>& u, int e) {
  Dec d; size_t n = u.size();
  for (size_t i = 0; i < n;) {
    uint32_t c = u[i]; size_t l = 1; bool ok = true;
    if (e == U8 && c >= 0x80) {
      l = c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0; ok = l != 0 && i + l <= n;
      if (ok) { c &= 0xFFu >> (l + 1); for (size_t k = 1; k < l; k++) { ok = ok && (u[i + k] & 0xC0) == 0x80; c = c << 6 | (u[i + k] & 63); } }
      ok = ok && !(l == 3 && c < 0x800) && !(l == 4 && (c < 0x10000 || c > 0x10FFFF));
    } else if (e == U16 && c >= 0xD800 && c < 0xDC00 && i + 1 < n && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000) { c = 0x10000 + ((c - 0xD800) << 10) + (u[i + 1] - 0xDC00); l = 2; }
    else if (e == U32) ok = c <= 0x10FFFF;
    d.at.push_back(uint32_t(i)); if (ok) { d.c.push_back(c); i += l; } else { d.c.push_back(0xFFFD); d.bad = true; i++; }
  }
  return d;
}
// An exact-size heap copy of the units (terminated when `zero`).
struct Units { uint8_t* p; Units(const std::vector<uint32_t>& u, int e, bool zero) { size_t s = size_t(unit_size[e]), n = u.size() + zero; p = (uint8_t*)malloc(n * s + (n == 0)); for (size_t i = 0; i < n; i++) { uint32_t v = i < u.size() ? u[i] : 0; if (s == 1) p[i] = uint8_t(v); else if (s == 2) { uint16_t w = uint16_t(v); memcpy(p + 2 * i, &w, 2); } else memcpy(p + 4 * i, &v, 4); } } ~Units() { free(p); } Units(const Units&) = delete; };
static uint32_t rnd_char(Rng& r, const std::vector<uint32_t>& alphabet) {
  static const uint32_t edge[] = {1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF};
  switch (r.below(6)) { case 0: return r.pick(edge); case 1: return uint32_t(r.range(1, 0x7F)); case 2: { uint32_t c = uint32_t(r.range(1, 0x10FFFF)); return c >= 0xD800 && c < 0xE000 ? c - 0x800 : c; } default: return alphabet[r.below(alphabet.size())]; }
}
static std::vector<uint32_t> rnd_units(Rng& r, int e, const std::vector<uint32_t>& alphabet, int len, bool hostile) {
  std::vector<uint32_t> u;
  for (int i = 0; i < len; i++) {
    if (!hostile || r.chance(2, 3)) { enc(u, e, e == L1 ? uint32_t(r.range(hostile ? 0 : 1, 255)) : rnd_char(r, alphabet)); continue; }
    if (e == L1) u.push_back(uint32_t(r.below(256)));
    else if (e == U8) switch (r.below(6)) {
      case 0: u.push_back(uint32_t(r.range(0x80, 0xFF))); break;
      case 1: { static const uint32_t b[] = {0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF}; int n = int(r.range(1, 5)); for (int k = 0; k < n; k++) u.push_back(r.pick(b)); break; }
      case 2: { uint32_t c = uint32_t(r.below(0x10000)); u.push_back(0xF0); u.push_back(0x80 | (c >> 12)); u.push_back(0x80 | (c >> 6 & 63)); u.push_back(0x80 | (c & 63)); break; } // overlong
      case 3: { uint32_t c = uint32_t(r.below(0x800)); u.push_back(0xE0); u.push_back(0x80 | (c >> 6)); u.push_back(0x80 | (c & 63)); break; } // overlong
      case 4: { std::vector<uint32_t> t; enc(t, e, rnd_char(r, alphabet)); if (t.size() > 1) t.resize(1 + r.below(t.size() - 1)); for (auto v : t) u.push_back(v); break; } // truncated
      default: enc(u, e, uint32_t(r.range(0xD800, 0xDFFF))); break;
    }
    else if (e == U16) { int n = int(r.range(1, 4)); for (int k = 0; k < n; k++) u.push_back(r.chance(1, 2) ? uint32_t(r.range(0xD800, 0xDBFF)) : uint32_t(r.range(0xDC00, 0xDFFF))); }
    else { static const uint32_t b[] = {0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFFFFFF}; u.push_back(r.chance(1, 2) ? r.pick(b) : r.chance(1, 2) ? uint32_t(r.range(0xD800, 0xDFFF)) : r.u32()); }
  }
  return u;
}
static std::string show_units(const std::vector<uint32_t>& u) { std::string s; char t[16]; for (size_t i = 0; i < u.size() && i < 24; i++) { snprintf(t, sizeof t, " %X", u[i]); s += t; } return s; }
static const char* enc_name[4] = {"utf8", "utf16", "utf32", "latin1"};
static void p22_check(const BLGlyphBuffer& gb, const Dec& d, int e, const std::vector<uint32_t>& u) {
  VH_CHECK(gb.size() == d.c.size(), "text-size", "%s%s: %zu characters, expected %zu", enc_name[e], show_units(u).c_str(), gb.size(), d.c.size());
  for (size_t i = 0; i < d.c.size(); i++) {
    VH_CHECK(gb.content()[i] == d.c[i], "text-content", "%s%s: character %zu is U+%04X, expected U+%04X", enc_name[e], show_units(u).c_str(), i, gb.content()[i], d.c[i]);
    VH_CHECK(gb.info_data()[i].cluster == d.at[i], "text-cluster", "%s%s: cluster of character %zu is %u, expected %u", enc_name[e], show_units(u).c_str(), i, gb.info_data()[i].cluster, d.at[i]);
  }
  VH_CHECK(gb.has_text() == !d.c.empty() && !gb.has_glyphs() == !d.c.empty() && gb.has_invalid_chars() == d.bad, "text-flags", "%s%s: flags %x, %sexpected to be ill-formed", enc_name[e], show_units(u).c_str(), gb.flags(), d.bad ? "" : "not ");
  const BLGlyphRun& run = gb.glyph_run();
  VH_CHECK(run.size == d.c.size() && run.placement_type == BL_GLYPH_PLACEMENT_TYPE_NONE && run.placement_data == nullptr && run.flags == gb.flags() && (run.size == 0 || run.glyph_data == gb.content()), "text-run", "%s%s: the glyph run has %zu glyphs, placement type %u, flags %x", enc_name[e], show_units(u).c_str(), run.size, run.placement_type, uint32_t(run.flags));
  evals(d.c.size());
}
static fg::Font p22_font(Rng& r, std::vector<uint32_t>& alphabet) {
  fg::Font f; f.upem = 1000; static const uint32_t base[] = {0x20, 0x41, 0x62, 0x7E, 0xA9, 0xE9, 0xFF, 0x3B1, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0xFFFE, 0x10000, 0x1F600, 0x10FFFF};
  std::set<uint32_t> s(std::begin(base), std::end(base)); for (int i = 0; i < 24; i++) { uint32_t c = uint32_t(r.range(1, r.chance(1, 2) ? 0xFF : 0x10FFFF)); if (c < 0xD800 || c > 0xDFFF) s.insert(c); }
  if (r.chance(1, 2)) { s.insert(0xD834); s.insert(0xDD1E); }
  fg::CMapSub c; c.platform = 3; c.encoding = 10; c.format = 12; uint32_t g = 1; for (uint32_t u : s) { c.map[u] = g++; if (u < 0xD800 || u > 0xDFFF) alphabet.push_back(u); } f.cmaps.push_back(c);
  f.glyph_count = int(g); f.long_metrics = f.glyph_count;
  for (int i = 0; i < f.glyph_count; i++) { fg::Glyph gl; gl.kind = 1; int x = 40 * (i % 7), y = 60 * (i / 7), w = 100 + 37 * (i % 11); gl.tt.push_back({{x, y, true}, {x + w, y, true}, {x + w / 2, y + 150 + 20 * (i % 5), i % 2 == 0}, {x, y + 90, true}}); gl.bbox[0] = x; gl.bbox[1] = y; gl.bbox[2] = x + w; gl.bbox[3] = y + 300; f.glyphs.push_back(gl); f.advance.push_back(300 + 13 * i); f.lsb.push_back(x); }
  return f;
}
static void p22(uint64_t, Rng& r) {
  std::vector<uint32_t> alphabet; fg::Font f = p22_font(r, alphabet); Bytes data = f.build(r); BLFontFace ff = make_face(data); float size = float(r.range(6, 30)); BLFont font; VH_OK(font.create_from_face(ff, size), "create-font");
  const auto& map = f.cmaps[0].map; auto gid = [&](uint32_t c) { auto it = map.find(c); return it == map.end() ? 0u : it->second; };
  BLGlyphBuffer gb;
  // A history of contents: every content replaces the previous one completely.
  int steps = int(r.range(3, 12));
  for (int s = 0; s < steps; s++) {
    int e = int(r.below(4)); bool zero = r.chance(1, 4); std::vector<uint32_t> u = rnd_units(r, e, alphabet, r.chance(1, 6) ? int(r.range(200, 1500)) : int(r.skew(30)), r.chance(2, 3)); if (zero) for (auto& v : u) if (!v) v = 0x41; if (zero && e == U8) for (auto& v : u) if (!(v & 0xFF)) v = 0x41;
    Dec d = decode(u, e); Units mem(u, e, zero); size_t n = zero ? SIZE_MAX : u.size(); BLResult q;
    if (r.chance(1, 2)) q = gb.set_text(mem.p, n, BLTextEncoding(e)); else q = e == L1 ? gb.set_latin1_text((const char*)mem.p, n) : e == U8 ? gb.set_utf8_text((const char*)mem.p, n) : e == U16 ? gb.set_utf16_text((const uint16_t*)mem.p, n) : gb.set_utf32_text((const uint32_t*)mem.p, n);
    VH_CHECK(q == BL_SUCCESS, "set-text", "%s text of %zu units: %u", enc_name[e], u.size(), q); p22_check(gb, d, e, u); count(d.bad ? "p22_illformed" : "p22_wellformed");
    Hash h; for (auto v : u) h.add(v); h.add(uint64_t(e)); distinct(h.h);
    uint32_t k = uint32_t(r.below(7));
    if (k == 0) { BLGlyphMappingState ms; VH_OK(font.map_text_to_glyphs(gb, ms), "map"); }
    if (k == 1 || k == 2) VH_OK(font.shape(gb), "shape");
    if (k <= 2 && !d.c.empty()) {
      VH_CHECK(gb.size() == d.c.size() && gb.has_glyphs(), "map", "%zu glyphs of %zu characters", gb.size(), d.c.size()); size_t undef = 0;
      for (size_t i = 0; i < d.c.size(); i++) { uint32_t w = gid(d.c[i]); undef += !w; VH_CHECK(gb.content()[i] == w && gb.info_data()[i].cluster == d.at[i], "map", "%s%s: U+%04X is glyph %u in cluster %u, expected %u in %u", enc_name[e], show_units(u).c_str(), d.c[i], gb.content()[i], gb.info_data()[i].cluster, w, d.at[i]); if (k) VH_CHECK(gb.placement_data()[i].advance.x == f.advance[w], "shape", "advance %d of glyph %u, expected %d", gb.placement_data()[i].advance.x, w, f.advance[w]); }
      VH_CHECK(gb.has_undefined_chars() == (undef != 0) && gb.has_invalid_chars() == d.bad, "map-flags", "flags %x after mapping, %zu undefined, %sill-formed", gb.flags(), undef, d.bad ? "" : "not "); evals(d.c.size());
      if (!k) continue;
      BLTextMetrics tm; VH_OK(font.get_text_metrics(gb, tm), "text-metrics"); double a = 0; for (uint32_t c : d.c) a += f.advance[gid(c)]; a *= double(size) / 1000; VH_CHECK(fabs(tm.advance.x - a) <= 1e-4 * (1 + a), "text-metrics", "%s%s: advance %g, expected %g", enc_name[e], show_units(u).c_str(), tm.advance.x, a);
    }
    if (k == 3) { VH_OK(gb.clear(), "clear"); VH_CHECK(gb.size() == 0 && gb.flags() == 0, "clear", "%zu, flags %x", gb.size(), gb.flags()); }
    if (k == 4) { // Glyphs, possibly strided and of 16 bits.
      size_t m = r.skew(40); int w = r.chance(1, 2) ? 2 : 4; int adv = r.chance(1, 2) ? w : w + int(r.range(1, 3)) * 2; bool back = r.chance(1, 4); std::vector<uint32_t> want; std::vector<uint8_t> raw(m * size_t(adv) + 8);
      for (size_t i = 0; i < m; i++) { uint32_t g = w == 2 ? r.u32() & 0xFFFF : r.u32(); uint8_t* p = &raw[i * size_t(adv)]; if (w == 2) { uint16_t t = uint16_t(g); memcpy(p, &t, 2); } else memcpy(p, &g, 4); want.push_back(g); }
      // Strides that aren't a multiple of the item's size would be misaligned accesses.
      if (w == 4 && adv % 4) adv = 0;
      BLResult q2; if (adv) { if (back && m) { std::reverse(want.begin(), want.end()); q2 = gb.set_glyphs_from_struct(&raw[(m - 1) * size_t(adv)], m, size_t(w), -adv); } else q2 = gb.set_glyphs_from_struct(raw.data(), m, size_t(w), adv); } else q2 = gb.set_glyphs(want.data(), m);
      VH_CHECK(q2 == BL_SUCCESS && gb.size() == m && gb.flags() == 0 && gb.glyph_run().placement_type == BL_GLYPH_PLACEMENT_TYPE_NONE, "set-glyphs", "%u, %zu of %zu glyphs, flags %x", q2, gb.size(), m, gb.flags());
      for (size_t i = 0; i < m; i++) VH_CHECK(gb.content()[i] == want[i] && gb.info_data()[i].cluster == i, "set-glyphs", "glyph %zu is %u, expected %u", i, gb.content()[i], want[i]);
      evals(m); count("p22_set_glyphs");
    }
    if (k == 5) { uint32_t x = 0; VH_CHECK(gb.set_text(&x, 1, BLTextEncoding(4 + r.below(9))) != BL_SUCCESS, "bad-encoding", "an invalid encoding was accepted"); p22_check(gb, d, e, u); }
    if (k == 6) { BLGlyphBuffer o(static_cast<BLGlyphBuffer&&>(gb)); VH_CHECK(gb.size() == 0, "move", "%zu", gb.size()); p22_check(o, d, e, u); if (r.chance(1, 2)) { gb.~BLGlyphBuffer(); new (&gb) BLGlyphBuffer(static_cast<BLGlyphBuffer&&>(o)); } }
  }
  // The same text in every encoding draws the same pixels, whatever the rendering mode.
  if (r.chance(1, 2)) {
    bool latin = r.chance(1, 3); std::vector<uint32_t> chars; int len = r.chance(1, 6) ? int(r.range(100, 700)) : int(r.range(1, 20));
    for (int i = 0; i < len; i++) { uint32_t c = rnd_char(r, alphabet); if (latin) c = c & 0xFF ? c & 0xFF : 0x41; chars.push_back(c); }
    // An ill-formed tail in one encoding draws what its replacement draws.
    int bad_e = r.chance(1, 3) && !latin ? int(r.range(U8, U32)) : -1; std::vector<uint32_t> bad_u;
    if (bad_e >= 0) { bad_u = rnd_units(r, bad_e, alphabet, int(r.range(1, 12)), true); for (auto& v : bad_u) if (!v) v = 0x41; chars = decode(bad_u, bad_e).c; for (uint32_t c : chars) if (c >= 0xD800 && c < 0xE000) { bad_e = -2; break; } if (bad_e == -2) return; }
    bool stroke = r.chance(1, 4), intp = r.chance(1, 2); int W = 200, H = 60; double scale = r.chance(1, 2) ? 1.0 : r.dbl(0.3, 2); BLPoint org(double(r.range(-5, 20)), double(r.range(20, 50)));
    auto draw = [&](int how, uint32_t threads) { // how: an encoding, or 4: glyph run
      BLImage img(W, H, BL_FORMAT_PRGB32); { BLContextCreateInfo ci{}; ci.thread_count = threads; BLContext ctx(img, ci); ctx.clear_all(); ctx.set_comp_op(BL_COMP_OP_SRC_OVER); ctx.set_fill_style(BLRgba32(0xFFFF8040u)); ctx.set_stroke_style(BLRgba32(0xFF40A0FFu)); ctx.scale(scale);
        std::vector<uint32_t> u; if (how < 4) { if (how == bad_e) u = bad_u; else for (uint32_t c : chars) enc(u, how, c); }
        bool zero = how < 4 && r.chance(1, 3); Units mem(u, how < 4 ? how : 0, zero); size_t n = zero ? SIZE_MAX : u.size(); BLGlyphBuffer g2;
        if (how >= L1) { if (how == L1) VH_OK(g2.set_latin1_text((const char*)mem.p, n), "draw"); else VH_OK(g2.set_utf32_text(chars.data(), chars.size()), "draw"); VH_OK(font.shape(g2), "draw"); }
        BLPointI oi(int(org.x), int(org.y)); BLResult q;
#define P22_DRAW(F, ...) (stroke ? (intp ? bl_context_stroke_##F##_i(&ctx, &oi, &font, __VA_ARGS__) : bl_context_stroke_##F##_d(&ctx, &org, &font, __VA_ARGS__)) : (intp ? bl_context_fill_##F##_i(&ctx, &oi, &font, __VA_ARGS__) : bl_context_fill_##F##_d(&ctx, &org, &font, __VA_ARGS__)))
        q = how == U8 ? P22_DRAW(utf8_text, (const char*)mem.p, n) : how == U16 ? P22_DRAW(utf16_text, (const uint16_t*)mem.p, n) : how == U32 ? P22_DRAW(utf32_text, (const uint32_t*)mem.p, n) : P22_DRAW(glyph_run, &g2.glyph_run());
#undef P22_DRAW
        VH_CHECK(q == BL_SUCCESS, "draw", "drawing %s text of %zu units: %u", how < 4 ? enc_name[how] : "glyph run", u.size(), q); VH_OK(ctx.end(), "draw"); }
      BLImageData d; VH_OK(img.get_data(&d), "draw"); std::vector<uint32_t> px; for (int y = 0; y < H; y++) { const uint32_t* row = (const uint32_t*)((const uint8_t*)d.pixel_data + y * d.stride); px.insert(px.end(), row, row + W); } return px; };
    std::vector<uint32_t> ref = draw(4, 0); size_t ink = 0; for (auto p : ref) ink += p != 0; if (ink) count("p22_ink");
    static_assert(U8 == 0 && U16 == 1 && U32 == 2 && L1 == 3, "encodings"); for (int how = 0; how <= 4; how++) for (uint32_t threads : {0u, 2u}) { if ((how == L1 && !latin) || (threads && !r.chance(1, 3))) continue; std::vector<uint32_t> px = draw(how, threads); size_t bad = 0; while (bad < px.size() && px[bad] == ref[bad]) bad++; VH_CHECK(bad == px.size(), "draw-pixels", "%s text with %u threads differs from the glyph run at (%zu,%zu): %08X, expected %08X", how < 4 ? enc_name[how] : "glyph run", threads, bad % size_t(W), bad / size_t(W), px[bad], ref[bad]); count("p22_draws"); evals(); }
  }
}
