// P19: font data of any content. The memory monitors (ASan, MSan) decide reads; this file decides what is returned:
// the same bytes give the same answers, outlines are well formed, failed decodes leave their output alone.
struct Table { uint8_t tag[4]; Bytes data; };
static bool split_font(const Bytes& d, uint32_t& version, std::vector<Table>& out) {
  auto u16 = [&](size_t o) { return uint32_t(d[o]) << 8 | d[o + 1]; }; auto u32 = [&](size_t o) { return u16(o) << 16 | u16(o + 2); };
  if (d.size() < 12) return false;
  version = u32(0); size_t n = u16(4); if (d.size() < 12 + n * 16) return false;
  for (size_t i = 0; i < n; i++) { size_t e = 12 + i * 16, o = u32(e + 8), l = u32(e + 12); if (o > d.size() || l > d.size() - o) return false; Table t; memcpy(t.tag, &d[e], 4); t.data.assign(d.begin() + long(o), d.begin() + long(o + l)); out.push_back(t); }
  return true;
}
// The table `last` ends where the file ends, so that reads past its end leave the allocation.
static Bytes join_font(Rng& r, uint32_t version, const std::vector<Table>& t, size_t last) {
  fg::Buf out; std::vector<uint32_t> off(t.size()); fg::Buf body; size_t base = 12 + t.size() * 16;
  for (size_t k = 0; k <= t.size(); k++) { size_t i = k < t.size() ? k : last; if (i >= t.size() || (k < t.size() && k == last)) continue; off[i] = uint32_t(base + body.size()); for (uint8_t b : t[i].data) body.u8(b); if (i != last && !r.chance(1, 8)) body.pad(4); }
  out.u32(version); out.u16(uint32_t(t.size())); out.u16(0); out.u16(0); out.u16(0);
  for (size_t i = 0; i < t.size(); i++) { for (int c = 0; c < 4; c++) out.u8(t[i].tag[c]); out.u32(0); out.u32(off[i]); out.u32(uint32_t(t[i].data.size())); }
  out.put(body); return out.d;
}
static void mutate_table(Rng& r, Bytes& d) {
  static const uint32_t iv[] = {0, 1, 2, 3, 4, 7, 8, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF};
  int n = 1 + int(r.skew(r.chance(1, 8) ? 200 : 6));
  for (int i = 0; i < n; i++) {
    if (d.empty()) { if (r.chance(1, 2)) d.push_back(uint8_t(r.u32())); continue; }
    size_t head = r.chance(1, 2) ? std::min<size_t>(d.size(), 64) : d.size(), at = r.below(head);
    switch (r.below(9)) {
      case 0: d[at] = uint8_t(r.u32()); break;
      case 1: d[at] ^= uint8_t(1u << r.below(8)); break;
      case 2: case 3: { uint32_t v = r.chance(1, 2) ? r.u32() & 0xFFFF : iv[r.below(17)]; at &= ~size_t(1); if (at + 1 < d.size()) { d[at] = uint8_t(v >> 8); d[at + 1] = uint8_t(v); } break; }
      case 4: { uint32_t v = r.chance(1, 2) ? r.u32() : r.chance(1, 2) ? iv[r.below(17)] : uint32_t(0) - iv[r.below(17)]; for (size_t k = 0; k < 4 && at + k < d.size(); k++) d[at + k] = uint8_t(v >> (24 - 8 * k)); break; }
      case 5: if (r.chance(1, 2)) d.resize(r.chance(1, 2) ? at : d.size() - 1 - r.below(std::min<size_t>(d.size(), 8))); break; // truncated
      case 6: { int q = int(r.range(-3, 3)); at &= ~size_t(1); if (at + 1 < d.size()) { uint32_t v = (uint32_t(d[at]) << 8 | d[at + 1]) + uint32_t(q); d[at] = uint8_t(v >> 8); d[at + 1] = uint8_t(v); } break; }
      case 7: { size_t l = 1 + r.below(16), from = r.below(d.size()); for (size_t k = 0; k < l && at + k < d.size() && from + k < d.size(); k++) d[at + k] = d[from + k]; break; }
      default: { size_t l = 1 + r.below(8); for (size_t k = 0; k < l && at + k < d.size(); k++) d[at + k] = uint8_t(r.chance(1, 2) ? 0xFF : 0); break; }
    }
  }
}
// Lookup lists made of random but plausible records, for the tables that few real fonts exercise.
static void rnd_coverage(Rng& r, fg::Buf& b, uint32_t gmax) {
  if (r.chance(1, 2)) { uint32_t n = uint32_t(r.below(6)), g = uint32_t(r.below(3)); b.u16(1); b.u16(n); for (uint32_t i = 0; i < n; i++) { b.u16(g); g += 1 + uint32_t(r.skew(gmax / 4 + 1)); } }
  else { uint32_t n = uint32_t(r.below(4)), g = uint32_t(r.below(3)), k = 0; b.u16(2); b.u16(n); for (uint32_t i = 0; i < n; i++) { uint32_t l = uint32_t(r.skew(gmax / 3 + 1)); b.u16(g); b.u16(g + l); b.u16(k); k += l + 1; g += l + 1 + uint32_t(r.below(4)); } }
}
static fg::Buf rnd_layout(Rng& r, bool gpos, uint32_t gmax) {
  auto val = [&] { return r.chance(1, 30) ? r.u32() & 0xFFFF : uint32_t(r.below(r.chance(1, 4) ? 200 : 12)); };
  auto gid = [&] { return uint32_t(r.below(gmax + 2)); };
  auto subtable = [&](uint32_t type) {
    fg::Buf s; uint32_t fmt = type == 5 || type == 6 || type == 7 || type == 8 ? uint32_t(r.range(1, 3)) : uint32_t(r.range(1, 2)); s.u16(r.chance(1, 40) ? val() : fmt);
    int words = int(r.range(1, 40)); std::vector<size_t> offs;
    for (int i = 0; i < words; i++) { bool o = i == 0 || r.chance(1, 5); if (o && r.chance(9, 10)) { offs.push_back(s.size()); s.u16(0); } else s.u16(r.chance(1, 2) ? val() : gid()); }
    for (size_t o : offs) { if (r.chance(1, 12)) { s.set16(o, val()); continue; } s.set16(o, uint32_t(s.size())); if (o == 2 || r.chance(1, 3)) rnd_coverage(r, s, gmax); else { uint32_t n = uint32_t(r.below(6)); s.u16(n); for (uint32_t k = 0; k < n * 2; k++) s.u16(r.chance(1, 3) ? val() : gid()); } }
    return s;
  };
  fg::Buf b; b.u16(1); b.u16(0); size_t so = b.size(); b.u16(0); b.u16(0); b.u16(0);
  uint32_t nl = 1 + uint32_t(r.below(8));
  b.set16(so, uint32_t(b.size())); // scripts
  { size_t base = b.size(); uint32_t ns = 1 + uint32_t(r.below(2)); b.u16(ns); std::vector<size_t> at; for (uint32_t i = 0; i < ns; i++) { for (char c : std::string(i == 0 ? "DFLT" : "latn")) b.u8(uint8_t(c)); at.push_back(b.size()); b.u16(0); }
    for (size_t a : at) { b.set16(a, uint32_t(b.size() - base)); b.u16(4); b.u16(0); b.u16(0); b.u16(r.chance(1, 3) ? uint32_t(r.below(4)) : 0xFFFF); uint32_t nf = 1 + uint32_t(r.below(4)); b.u16(nf); for (uint32_t i = 0; i < nf; i++) b.u16(i); } }
  b.set16(so + 2, uint32_t(b.size())); // features
  { static const char* gs[] = {"ccmp", "liga", "calt", "clig"}; static const char* gp[] = {"kern", "mark", "mkmk", "dist"}; size_t base = b.size(); b.u16(4); std::vector<size_t> at; for (int i = 0; i < 4; i++) { for (int c = 0; c < 4; c++) b.u8(uint8_t((gpos ? gp : gs)[i][c])); at.push_back(b.size()); b.u16(0); }
    for (size_t a : at) { b.set16(a, uint32_t(b.size() - base)); b.u16(0); b.u16(nl); for (uint32_t i = 0; i < nl; i++) b.u16(i); } }
  b.set16(so + 4, uint32_t(b.size())); // lookups
  { size_t base = b.size(); b.u16(nl); std::vector<size_t> at; for (uint32_t i = 0; i < nl; i++) { at.push_back(b.size()); b.u16(0); }
    for (size_t a : at) { b.set16(a, uint32_t(b.size() - base)); size_t lb = b.size(); uint32_t type = uint32_t(r.range(1, gpos ? 9 : 8)), ns = 1 + uint32_t(r.below(3)), inner = uint32_t(r.range(1, gpos ? 8 : 8)); b.u16(type); b.u16(r.chance(1, 3) ? uint32_t(r.below(32)) : 0); b.u16(ns); std::vector<size_t> sa; for (uint32_t k = 0; k < ns; k++) { sa.push_back(b.size()); b.u16(0); }
      for (size_t q : sa) { b.set16(q, uint32_t(b.size() - lb)); if (type == (gpos ? 9u : 7u)) { b.u16(1); b.u16(inner); b.u32(8); b.put(subtable(inner)); } else b.put(subtable(type)); } } }
  return b;
}

static uint64_t hash_path(const BLPath& p) { Hash h; h.add(p.size()); for (size_t i = 0; i < p.size(); i++) { h.add(p.command_data()[i]); if (p.command_data()[i] != BL_PATH_CMD_CLOSE) { uint64_t q; memcpy(&q, &p.vertex_data()[i].x, 8); h.add(q); memcpy(&q, &p.vertex_data()[i].y, 8); h.add(q); } } return h.h; }
static bool well_formed(const BLPath& p, size_t from) {
  const uint8_t* c = p.command_data(); bool open = false;
  for (size_t i = from; i < p.size();) {
    switch (c[i]) {
      case BL_PATH_CMD_MOVE: open = true; i++; break;
      case BL_PATH_CMD_ON: if (!open) return false; i++; break;
      case BL_PATH_CMD_QUAD: if (!open || i + 1 >= p.size() || c[i + 1] != BL_PATH_CMD_ON) return false; i += 2; break;
      case BL_PATH_CMD_CUBIC: if (!open || i + 2 >= p.size() || c[i + 1] != BL_PATH_CMD_CUBIC || c[i + 2] != BL_PATH_CMD_ON) return false; i += 3; break;
      case BL_PATH_CMD_CLOSE: if (!open) return false; open = false; i++; break;
      default: return false;
    }
  }
  return true;
}
static std::string cmds(const BLPath& p, size_t from) { std::string o; for (size_t i = from; i < p.size() && o.size() < 120; i++) o += "MLQKCW"[std::min<unsigned>(p.command_data()[i], 5)]; return o; }
static uint64_t use_font(const Bytes& data, uint64_t seed, bool deep) {
  Rng r(seed); Hash h; BLResult e; BLFontFace ff = make_face(data, &e); h.add(e); if (e != BL_SUCCESS) { count("p19_rejected"); return h.h; }
  count("p19_accepted");
  BLFontFaceInfo fi = ff.face_info(); h.add(fi.glyph_count); h.add(fi.face_flags); h.add(fi.outline_type);
  for (const BLString& s : {ff.family_name(), ff.subfamily_name(), ff.full_name(), ff.post_script_name()}) { h.add(s.size()); h.add(hash_bytes(s.data(), s.size())); VH_CHECK(s.size() == strlen(s.data()) || memchr(s.data(), 0, s.size()), "name", "name of %zu bytes isn't terminated", s.size()); }
  BLFontDesignMetrics dm = ff.design_metrics(); h.add(hash_bytes(&dm, sizeof dm)); h.add(ff.weight() | ff.stretch() << 10 | ff.style() << 20);
  BLFontPanoseInfo pan = ff.panose_info(); BLFontCoverageInfo uc = ff.coverage_info(); h.add(hash_bytes(&pan, sizeof pan)); h.add(hash_bytes(&uc, sizeof uc));
  BLBitSet cov; e = ff.get_character_coverage(&cov); h.add(e); if (e == BL_SUCCESS) h.add(cov.cardinality());
  BLArray<BLTag> tags; for (int k = 0; k < 3; k++) { e = k == 0 ? ff.get_script_tags(&tags) : k == 1 ? ff.get_feature_tags(&tags) : ff.get_variation_tags(&tags); h.add(e); h.add(tags.size()); for (BLTag t : tags) h.add(t); }
  BLFontData fd = ff.data(); e = fd.get_table_tags(0, tags); h.add(e); for (BLTag t : tags) { BLFontTable ft; fd.get_table(0, &ft, t); h.add(ft.size); if (ft.size && ft.size < 100000) h.add(hash_bytes(ft.data, ft.size)); }
  static const float sizes[] = {12, 1, 0.01f, 100, 3000}; BLFont font; BLFontFeatureSettings fs; if (r.chance(1, 2)) { static const char* ft[] = {"liga", "kern", "smcp", "ccmp", "mark", "dlig", "salt", "calt"}; for (int i = 0; i < 3; i++) { const char* q = ft[r.below(8)]; fs.set_value(BL_MAKE_TAG(q[0], q[1], q[2], q[3]), uint32_t(r.below(3))); } }
  e = font.create_from_face(ff, sizes[r.below(5)], fs); h.add(e); if (e != BL_SUCCESS) return h.h;
  uint32_t gc = ff.glyph_count(); std::vector<uint32_t> g; for (uint32_t i = 0; i < gc && i < (deep ? 300u : 24u); i++) g.push_back(deep ? i : uint32_t(r.below(gc))); for (int i = 0; i < 6; i++) g.push_back(uint32_t(r.below(gc + 3))); g.push_back(gc); g.push_back(gc - 1); g.push_back(0xFFFF); g.push_back(0x10000); g.push_back(0xFFFFFFFFu);
  std::vector<BLBoxI> bx(g.size()); std::vector<BLGlyphPlacement> pl(g.size()); memset((void*)pl.data(), 0, pl.size() * sizeof(BLGlyphPlacement));
  h.add(font.get_glyph_bounds(g.data(), 4, bx.data(), g.size())); for (auto& b : bx) h.add(hash_bytes(&b, sizeof b));
  e = font.get_glyph_advances(g.data(), 4, pl.data(), g.size()); h.add(e); if (e == BL_SUCCESS) for (auto& p : pl) { h.add(uint64_t(p.advance.x)); h.add(uint64_t(p.placement.x)); }
  BLPath path; size_t fails = 0, oks = 0;
  for (uint32_t id : g) {
    if (path.size() > 100000) path.clear();
    BLMatrix2D m = r.chance(1, 3) ? BLMatrix2D(2, 0.5, -0.25, 1.5, 3, 4) : BLMatrix2D::make_identity(); size_t before = path.size(); e = font.get_glyph_outlines(id, m, path); h.add(e);
    if (e != BL_SUCCESS) { fails++; VH_CHECK(path.size() == before, "failed-outline", "a glyph that failed with %u added %zu vertices", e, path.size() - before); } else { oks++; VH_CHECK(path.size() >= before && well_formed(path, before), "outline-form", "outline of glyph %u (outline type %u) isn't a well formed path: %s", id, fi.outline_type, cmds(path, before).c_str()); }
  }
  h.add(hash_path(path)); count("p19_outlines", oks); count("p19_outline_errors", fails);
  for (int k = 0; k < (deep ? 8 : 3); k++) {
    BLGlyphBuffer gb; std::vector<uint32_t> text; size_t n = 1 + r.below(deep ? 60 : 24); bool ids = r.chance(1, 3);
    BLBitSetSegment seg; (void)seg;
    for (size_t i = 0; i < n; i++) text.push_back(ids ? uint32_t(r.below(gc + 1)) : r.chance(1, 2) ? "fi ffl AVToTe.fj1/2"[r.below(19)] : r.chance(1, 2) ? 0x300 + uint32_t(r.below(0x40)) : r.chance(1, 2) ? uint32_t(r.below(0x600)) : uint32_t(r.below(0x110000)));
    if (ids) gb.set_glyphs(text.data(), n); else gb.set_utf32_text(text.data(), n);
    e = ids ? BL_SUCCESS : font.map_text_to_glyphs(gb); h.add(e);
    if (e == BL_SUCCESS) {
      BLBitArray lk; for (uint32_t i = 0; i < 64; i++) lk.append_bit(true);
      BLResult e1 = font.apply_gsub(gb, lk); h.add(e1); count(e1 == BL_SUCCESS ? "p19_gsub" : "p19_gsub_error");
      e = font.position_glyphs(gb); h.add(e); if (e == BL_SUCCESS) { BLResult e2 = font.apply_gpos(gb, lk); h.add(e2); count(e2 == BL_SUCCESS ? "p19_gpos" : "p19_gpos_error"); h.add(font.apply_kerning(gb)); }
      VH_CHECK(gb.size() < 4000000, "glyph-count", "%zu characters became %zu glyphs", n, gb.size());
      h.add(gb.size()); for (size_t i = 0; i < gb.size(); i++) { h.add(gb.content()[i]); h.add(gb.info_data()[i].cluster); if (e == BL_SUCCESS) { auto& p = gb.placement_data()[i]; h.add(uint64_t(p.advance.x) ^ uint64_t(p.advance.y) << 32); h.add(uint64_t(p.placement.x) ^ uint64_t(p.placement.y) << 32); } }
    }
    BLGlyphBuffer gb2; gb2.set_utf32_text(text.data(), n); e = font.shape(gb2); h.add(e); BLTextMetrics tm; if (e == BL_SUCCESS) { h.add(gb2.size()); BLResult e2 = font.get_text_metrics(gb2, tm); h.add(e2); if (e2 == BL_SUCCESS) { h.add(uint64_t(int64_t(std::max(-1e15, std::min(1e15, tm.advance.x))))); }
      path.clear(); e2 = font.get_glyph_run_outlines(gb2.glyph_run(), BLMatrix2D::make_identity(), path); h.add(e2); h.add(hash_path(path));
      if (k == 0) { BLImage img(64, 64, BL_FORMAT_PRGB32); BLContext c(img); c.clear_all(); e2 = c.fill_glyph_run(BLPoint(2, 40), font, gb2.glyph_run(), BLRgba32(0xFFFFFFFF)); h.add(e2); c.end(); BLImageData d; img.get_data(&d); h.add(hash_bytes(d.pixel_data, size_t(d.stride) * 64)); } }
  }
  return h.h;
}
static std::vector<Bytes>& real_fonts() {
  static std::vector<Bytes> v; if (v.empty()) for (const char* n : {"CFFTest.otf", "cmapTest.ttf", "glyfTest.ttf", "@ABeeZee-Regular.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf"}) {
    char p[600] = {}; snprintf(p, sizeof p, "%s%s", n[0] == '/' ? "" : n[0] == '@' ? "/repo/blend2d-testing/resources/" : (st().corpus + "/").c_str(), n[0] == '@' ? n + 1 : n); FILE* f = fopen(p, "rb"); if (!f) continue; Bytes b; fseek(f, 0, SEEK_END); b.resize(size_t(ftell(f))); rewind(f); if (fread(b.data(), 1, b.size(), f) == b.size()) v.push_back(b); fclose(f); }
  return v;
}
static void p19(uint64_t id, Rng& r) {
  std::vector<Table> t; uint32_t ver = 0x00010000; Bytes base; bool real = false;
  if (r.chance(1, 3) && !real_fonts().empty()) { size_t k = r.below(real_fonts().size()); if (k >= 4 && !r.chance(1, 4)) k = r.below(4); if (k >= real_fonts().size()) k = 0; base = real_fonts()[k]; real = true; }
  else { fg::Font f = fg::random_font(r, id % 199 == 13); base = f.build(r); }
  if (!split_font(base, ver, t)) { vh::fail("harness", "can't split a font"); return; }
  uint32_t gmax = 40; for (auto& q : t) if (!memcmp(q.tag, "maxp", 4) && q.data.size() >= 6) gmax = uint32_t(q.data[4]) << 8 | q.data[5];
  if (!real || r.chance(1, 4)) for (int k = 0; k < 3; k++) if (r.chance(2, 3)) {
    const char* tag = k == 0 ? "GSUB" : k == 1 ? "GPOS" : "kern"; Table q; memcpy(q.tag, tag, 4); t.erase(std::remove_if(t.begin(), t.end(), [&](const Table& w) { return !memcmp(w.tag, tag, 4); }), t.end());
    if (k < 2) q.data = rnd_layout(r, k == 1, gmax).d; else { fg::Buf b; if (r.chance(2, 3)) { uint32_t n = uint32_t(r.below(3)); b.u16(0); b.u16(n); for (uint32_t i = 0; i < n; i++) { uint32_t np = uint32_t(r.below(20)); b.u16(0); b.u16(14 + np * 6); b.u16(1 | uint32_t(r.below(4)) << 2 | (r.chance(1, 4) ? 0x200 : 0)); b.u16(np); b.u16(0); b.u16(0); b.u16(0); for (uint32_t j = 0; j < np * 3; j++) b.u16(uint32_t(r.below(gmax + 1))); } } else { b.u32(0x00010000); b.u32(1 + uint32_t(r.below(2))); for (int i = 0; i < 2; i++) { uint32_t np = uint32_t(r.below(30)); b.u32(8 + 8 + np * 6); b.u8(r.chance(1, 2) ? 0 : 0x80); b.u8(uint32_t(r.below(4))); b.u16(0); for (uint32_t j = 0; j < np * 3 + 4; j++) b.u16(uint32_t(r.below(gmax + 1))); } } q.data = b.d; }
    t.push_back(q);
  }
  size_t last = r.below(t.size()), touched = 0;
  static const char* weight[] = {"GSUB", "GPOS", "kern", "cmap", "glyf", "loca", "CFF ", "hmtx", "name", "OS/2", "GDEF"};
  if (r.chance(1, 2)) { const char* w = weight[r.below(11)]; for (size_t i = 0; i < t.size(); i++) if (!memcmp(t[i].tag, w, 4)) last = i; }
  if (r.chance(1, 10)) { t[last].data.resize(std::min(t[last].data.size(), size_t(r.below(r.chance(1, 2) ? 8 : 40)))); touched++; } // too short for its header
  else if (!r.chance(1, 12)) { mutate_table(r, t[last].data); touched++; if (r.chance(1, 4)) { mutate_table(r, t[r.below(t.size())].data); touched++; } }
  if (r.chance(1, 12)) t.erase(t.begin() + long(r.below(t.size())));
  if (last >= t.size()) last = t.size() - 1;
  Bytes d = t.empty() ? Bytes(base.begin(), base.begin() + 12) : join_font(r, r.chance(1, 30) ? 0x74746366 : ver, t, last);
  if (r.chance(1, 12)) { count("collections"); std::vector<Bytes> fonts(1 + r.below(4)); for (auto& q : fonts) if (r.chance(1, 2)) q = d; else { fg::Font o = fg::random_font(r, false); q = o.build(r); } fonts.back() = d; d = make_collection(r, fonts); Bytes head(d.begin(), d.begin() + long(std::min<size_t>(d.size(), 32 + r.below(200)))); size_t n = head.size(); if (r.chance(2, 3)) { mutate_table(r, head); head.resize(n); std::copy(head.begin(), head.end(), d.begin()); } if (r.chance(1, 6)) d.resize(r.below(d.size() + 1)); if (d.size() >= 4) memcpy(d.data(), "ttcf", 4); }
  if (r.chance(1, 10)) { Bytes head(d.begin(), d.begin() + long(std::min<size_t>(d.size(), 12 + t.size() * 16))); size_t n = head.size(); mutate_table(r, head); head.resize(n); std::copy(head.begin(), head.end(), d.begin()); }
  if (r.chance(1, 12)) d.resize(r.below(d.size() + 1));
  if (!t.empty() && last < t.size()) { char nm[16]; snprintf(nm, sizeof nm, "p19_last_%.4s", (const char*)t[last].tag); for (char* c = nm; *c; c++) if (!isalnum(uint8_t(*c)) && *c != '_') *c = '_'; count(nm); }
  uint64_t seed = r.u64(); bool deep = d.size() < 20000; uint64_t h1 = use_font(d, seed, deep);
  // The heap holds other bytes the second time.
  { std::vector<void*> junk; for (int i = 0; i < 40; i++) { size_t n = 16 + r.below(5000); void* p = malloc(n); memset(p, int(r.u32() & 255), n); junk.push_back(p); } for (void* p : junk) free(p); }
  uint64_t h2 = use_font(d, seed, deep); VH_CHECK(h1 == h2, "determinism", "the same bytes (%zu) gave different results", d.size());
  distinct(h1); evals(2);
}
