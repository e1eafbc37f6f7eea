// P33: pixel conversion against a per-pixel model that knows the layouts only.
#include "vh.h"
using namespace vh;
typedef std::vector<uint8_t> Bytes;

// The layout as a caller describes it; the model never sees the sanitised or selected form.
struct Lay { uint32_t depth = 0; bool rgb = false, a = false, lum = false, idx = false, pre = false, swap = false; uint8_t size[4] = {}, shift[4] = {}; BLRgba32 pal[256]; bool native = false;
  BLFormatInfo info() const { BLFormatInfo f; memset(&f, 0, sizeof f); f.depth = depth; uint32_t fl = (rgb ? BL_FORMAT_FLAG_RGB : 0) | (a ? BL_FORMAT_FLAG_ALPHA : 0) | (lum ? BL_FORMAT_FLAG_LUM : 0) | (idx ? BL_FORMAT_FLAG_INDEXED : 0) | (pre ? BL_FORMAT_FLAG_PREMULTIPLIED : 0) | (swap ? BL_FORMAT_FLAG_BYTE_SWAP : 0); f.flags = BLFormatFlags(fl); if (idx) f.palette = const_cast<BLRgba32*>(pal); else { memcpy(f.sizes, size, 4); memcpy(f.shifts, shift, 4); } return f; }
  std::string str() const { char b[200]; snprintf(b, sizeof b, "%u-bit %s%s%s%s%s%s [%u@%u %u@%u %u@%u %u@%u]", depth, idx ? "indexed " : "", lum ? "L" : "", rgb ? "RGB" : "", a ? "A" : "", pre ? " premultiplied" : "", swap ? " swapped" : "", size[0], shift[0], size[1], shift[1], size[2], shift[2], size[3], shift[3]); return b; }
  bool aligned() const { for (int i = 0; i < 4; i++) if (size[i] && (size[i] != 8 || shift[i] % 8)) return false; return true; } };

static void place(Rng& r, Lay& l, const int* order, int n) { // Components from low to high, with optional unused bits between them.
  uint32_t used = 0; for (int i = 0; i < n; i++) used += l.size[order[i]]; uint32_t spare = l.depth - used, pos = 0; bool bytes = true; for (int i = 0; i < n; i++) bytes &= l.size[order[i]] == 8;
  for (int i = 0; i < n; i++) { uint32_t g = uint32_t(r.below(3) == 0 ? r.below(spare + 1) : 0); if (bytes) g = g / 8 * 8; if (i == 0 && r.chance(1, 4)) g = spare; spare -= g; pos += g; l.shift[order[i]] = uint8_t(pos); pos += l.size[order[i]]; }
}
static Lay gen_layout(Rng& r, bool dst) {
  Lay l; int k = int(r.below(dst ? 12 : 15)); int ord[4] = {2, 1, 0, 3}; auto shuffle = [&](int n) { for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]); };
  if (k <= 2) { // Native.
    l.native = true; int f = int(r.below(8)); l.depth = f == 7 ? 8 : 32; if (f == 7) { l.a = true; l.size[3] = 8; return l; } l.rgb = true; l.size[0] = l.size[1] = l.size[2] = 8; l.shift[0] = 16; l.shift[1] = 8; if (f < 5) { l.a = true; l.size[3] = 8; l.shift[3] = 24; l.pre = f < 3; } return l; }
  if (k <= 5) { l.depth = 32; l.rgb = true; l.a = r.chance(2, 3); l.pre = l.a && r.chance(1, 2); l.size[0] = l.size[1] = l.size[2] = 8; if (l.a) l.size[3] = 8; if (r.chance(1, 2)) { // Alpha (or the unused byte) first or last.
      int o3[3] = {0, 1, 2}; for (int i = 2; i > 0; i--) std::swap(o3[i], o3[r.below(i + 1)]); bool low = r.chance(1, 2); for (int i = 0; i < 3; i++) l.shift[i] = uint8_t(8 * o3[i] + (low ? 8 : 0)); if (l.a) l.shift[3] = low ? 0 : 24; } else { shuffle(l.a ? 4 : 3); if (!l.a) { ord[3] = 3; } place(r, l, ord, l.a ? 4 : 3); } l.swap = r.chance(1, 4); return l; }
  if (k == 6) { l.depth = 24; l.rgb = true; l.size[0] = l.size[1] = l.size[2] = 8; shuffle(3); place(r, l, ord, 3); l.swap = r.chance(1, 4); return l; }
  if (k == 7) { static const uint8_t T[][5] = {{5, 6, 5, 0, 16}, {5, 5, 5, 0, 16}, {5, 5, 5, 1, 16}, {4, 4, 4, 4, 16}, {10, 10, 10, 0, 32}, {10, 10, 10, 2, 32}, {6, 6, 6, 6, 24}, {3, 3, 2, 8, 16}, {6, 6, 6, 0, 24}, {8, 8, 8, 8, 32}, {11, 11, 10, 0, 32}}; auto& t = r.pick(T); l.depth = t[4]; l.rgb = true; l.a = t[3] != 0; l.pre = l.a && r.chance(1, 2); memcpy(l.size, t, 4); if (r.chance(1, 2)) shuffle(l.a ? 4 : 3); place(r, l, ord, l.a ? 4 : 3); l.swap = r.chance(1, 3); return l; }
  if (k <= 9) { static const uint32_t D[] = {16, 24, 32}; l.depth = r.pick(D); l.rgb = true; l.a = r.chance(1, 2); l.pre = l.a && r.chance(1, 2); int n = l.a ? 4 : 3; uint32_t left = l.depth; shuffle(n); for (int i = 0; i < n; i++) { uint32_t room = left - uint32_t(n - 1 - i); uint32_t s = 1 + uint32_t(r.below(std::min<uint32_t>(room, r.chance(1, 5) ? 16 : 9))); l.size[ord[i]] = uint8_t(s); left -= s; } if (l.pre) { uint8_t m = 16; for (int i = 0; i < 4; i++) m = std::min(m, l.size[i]); for (int i = 0; i < 4; i++) l.size[i] = m; } place(r, l, ord, n); l.swap = r.chance(1, 3); return l; }
  if (k == 10) { l.depth = 8; if (r.chance(1, 2)) { l.lum = true; l.size[0] = l.size[1] = l.size[2] = 8; } else { l.a = true; l.size[3] = 8; } return l; }
  if (k == 11) { static const uint32_t D[] = {1, 2, 4, 8, 16, 16, 24, 32}; l.depth = r.pick(D); l.lum = true; l.a = l.depth > 8 && r.chance(1, 2); uint32_t s = std::min<uint32_t>(16, l.a ? l.depth / 2 : l.depth); if (r.chance(1, 3)) s = 1 + uint32_t(r.below(s)); l.size[0] = l.size[1] = l.size[2] = uint8_t(s); uint32_t sh = uint32_t(r.below(l.depth - (l.a ? 2 : 1) * s + 1)); if (l.a) { l.size[3] = uint8_t(s); bool lo = r.chance(1, 2); l.shift[3] = uint8_t(lo ? sh : sh + s); sh = lo ? sh + s : sh; l.pre = r.chance(1, 2); } for (int i = 0; i < 3; i++) l.shift[i] = uint8_t(sh); l.swap = r.chance(1, 3); return l; }
  static const uint32_t D[] = {1, 2, 4, 8}; l.depth = r.pick(D); l.idx = true; int c = int(r.below(4)); l.rgb = c != 0; l.a = c != 1; l.pre = c == 2; for (auto& p : l.pal) { uint32_t a = r.chance(1, 4) ? 255 : uint32_t(r.below(256)); uint32_t m = l.pre ? a : 255; p = BLRgba32(uint32_t(r.below(m + 1)), uint32_t(r.below(m + 1)), uint32_t(r.below(m + 1)), a); if (r.chance(1, 8)) p = BLRgba32(0); if (r.chance(1, 8)) p = BLRgba32(l.pre ? 0xFFFFFFFFu : 0x01010101u); } if (r.chance(1, 4)) { l.pal[0] = BLRgba32(0); l.pal[1] = BLRgba32(r.chance(1, 2) ? 0xFFFFFFFFu : 0x01010101u * uint32_t(r.below(256))); }
  return l;
}
static uint64_t maxv(uint32_t s) { return (1ull << s) - 1; }
static uint32_t get_word(const Lay& l, const uint8_t* row, uint32_t x) { if (l.depth < 8) { uint32_t n = 8 / l.depth; return (row[x / n] >> (8 - l.depth * (x % n + 1))) & ((1u << l.depth) - 1); } uint32_t n = l.depth / 8, v = 0; for (uint32_t i = 0; i < n; i++) v |= uint32_t(row[x * n + i]) << (8 * (l.swap ? n - 1 - i : i)); return v; }
static void put_word(const Lay& l, uint8_t* row, uint32_t x, uint32_t v) { if (l.depth < 8) { uint32_t n = 8 / l.depth, sh = 8 - l.depth * (x % n + 1); uint8_t m = uint8_t(((1u << l.depth) - 1) << sh); row[x / n] = uint8_t((row[x / n] & ~m) | (v << sh)); return; } uint32_t n = l.depth / 8; for (uint32_t i = 0; i < n; i++) row[x * n + i] = uint8_t(v >> (8 * (l.swap ? n - 1 - i : i))); }
// A pixel with its resolution: value and the largest value per component. `has` = component present.
struct Pix { uint32_t v[4]; uint32_t m[4]; bool pre; bool rgb, a; };
static Pix decode(const Lay& l, uint32_t w) {
  Pix p; p.pre = l.pre; p.rgb = l.rgb || l.lum; p.a = l.a;
  if (l.idx) { BLRgba32 c = l.pal[w]; uint32_t v[4] = {c.r(), c.g(), c.b(), c.a()}; for (int i = 0; i < 4; i++) { p.v[i] = v[i]; p.m[i] = 255; } if (!l.rgb) { p.rgb = true; p.pre = false; } if (!l.a) p.v[3] = 255; p.a = l.a; return p; }
  for (int i = 0; i < 4; i++) { p.m[i] = l.size[i] ? uint32_t(maxv(l.size[i])) : 255; p.v[i] = l.size[i] ? (w >> l.shift[i]) & p.m[i] : 255; }
  if (!l.rgb && !l.lum) { for (int i = 0; i < 3; i++) { p.v[i] = 255; p.m[i] = 255; } p.pre = false; } // Alpha only: white.
  return p;
}
static void scribble_stack() { volatile uint8_t junk[6000]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = uint8_t(0xA5 ^ i); }
static void case_p33(Rng& r) {
  Lay s = gen_layout(r, false), d = gen_layout(r, true); if (r.chance(1, 10)) { d = s; if (d.idx) d = gen_layout(r, true); } else if (!s.idx && s.a && r.chance(1, 12)) { d = s; d.pre = !d.pre; }
  // Shape of the rectangle.
  uint32_t w = uint32_t(r.chance(1, 20) ? r.below(1200) : r.chance(1, 3) ? r.below(70) : r.skew(300)), h = uint32_t(1 + r.below(r.chance(1, 10) ? 40 : 5)); if (w == 0) w = 1;
  size_t sb = (size_t(w) * s.depth + 7) / 8, db = (size_t(w) * d.depth + 7) / 8, gap = r.chance(1, 3) ? r.below(20) : 0; bool opts = gap || r.chance(1, 4); size_t sp = r.chance(1, 2) ? 0 : r.below(40), dp = r.chance(1, 2) ? 0 : r.below(40); bool sneg = r.chance(1, 5), dneg = r.chance(1, 5);
  size_t soff = r.chance(1, 2) ? 0 : r.below(33), doff = r.chance(1, 2) ? 0 : r.below(33), sst = sb + sp, dst = db + gap + dp;
  uint8_t* smem = (uint8_t*)malloc(soff + sst * (h - 1) + sb); size_t dsize = doff + dst * (h - 1) + db + gap; uint8_t* dmem = (uint8_t*)malloc(dsize); struct Free { uint8_t *a, *b; ~Free() { free(a); free(b); } } fr{smem, dmem};
  for (size_t i = 0; i < soff + sst * (h - 1) + sb; i++) smem[i] = uint8_t(r.u32()); Bytes before(dsize); for (auto& b : before) b = uint8_t(r.u32()); memcpy(dmem, before.data(), dsize);
  auto srow = [&](uint32_t y) { return smem + soff + sst * (sneg ? h - 1 - y : y); }; auto drow = [&](uint32_t y) { return dmem + doff + dst * (dneg ? h - 1 - y : y); };
  bool gray = d.lum; int content = int(r.below(4)); uint32_t fixed = r.u32();
  for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) { uint32_t v = content == 0 ? (r.chance(1, 3) ? 0xFFFFFFFFu : r.chance(1, 2) ? 0 : r.u32()) : content == 1 && !r.chance(1, 20) ? fixed : r.u32(); if (s.depth < 32) v &= (1u << s.depth) - 1;
      if (!s.idx && s.a && r.chance(1, 3)) { uint32_t m = uint32_t(maxv(s.size[3]) << s.shift[3]); v = r.chance(1, 2) ? v | m : r.chance(1, 2) ? v & ~m : v; }
      if (!s.idx && gray && s.rgb) { uint32_t g = r.u32(); for (int i = 0; i < 3; i++) { uint32_t m = uint32_t(maxv(s.size[i])); v &= ~(m << s.shift[i]); v |= ((g & 1) ? m : 0u) << s.shift[i]; } }
      if (!s.idx && s.pre) { uint32_t ma = uint32_t(maxv(s.size[3])), a = (v >> s.shift[3]) & ma; for (int i = 0; i < 3; i++) { uint32_t m = uint32_t(maxv(s.size[i])), c = (v >> s.shift[i]) & m; uint32_t lim = uint32_t(uint64_t(a) * m / ma); if (c > lim) { c = r.chance(1, 4) ? lim : uint32_t(r.below(lim + 1)); if (s.lum) { for (int j = 0; j < 3; j++) { v &= ~(m << s.shift[j]); v |= c << s.shift[j]; } break; } v &= ~(m << s.shift[i]); v |= c << s.shift[i]; } } }
      put_word(s, srow(y), x, v); }
  Bytes skeep(smem, smem + soff + sst * (h - 1) + sb); BLRgba32 palkeep[256]; memcpy(palkeep, s.pal, sizeof palkeep);
  uint32_t cf = 0; if (r.chance(1, 4)) cf |= BL_PIXEL_CONVERTER_CREATE_FLAG_NO_MULTI_STEP; if (s.idx && r.chance(1, 3)) { cf |= BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE; if (r.chance(1, 2)) cf |= BL_PIXEL_CONVERTER_CREATE_FLAG_ALTERABLE_PALETTE; }
  BLFormatInfo di = d.info(), si = s.info(); std::string desc = s.str() + " -> " + d.str(); sample("%s, %ux%u gap %zu", desc.c_str(), w, h, gap);
  BLPixelConverter pc; if (r.chance(1, 4)) { BLFormatInfo a; BLFormatInfo b; a.query(BL_FORMAT_PRGB32); b.query(BL_FORMAT_A8); pc.create(a, b); } bool had = pc.is_initialized(); scribble_stack(); BLResult res = pc.create(di, si, BLPixelConverterCreateFlags(cf));
  auto ordinary = [](const Lay& l) { return l.rgb && !l.idx && l.depth >= 16; };
  if (res != BL_SUCCESS) { VH_CHECK(res == BL_ERROR_NOT_IMPLEMENTED || res == BL_ERROR_INVALID_VALUE, "create", "%s: error %u", desc.c_str(), res); VH_CHECK(pc.is_initialized() == had, "create-failed", "a failed create changed the converter");
    bool must = ordinary(s) && ordinary(d) && !(cf & BL_PIXEL_CONVERTER_CREATE_FLAG_NO_MULTI_STEP); if ((s.native && d.native && !(s.depth == 8 && (s.pre || d.pre)) && (s.a || !(d.depth == 8)))) must = true; if (s.idx && d.native && (d.depth == 32 || s.a)) must = true; VH_CHECK(!must, "create-supported", "%s: create reports %u", desc.c_str(), res); count("unsupported pairs"); return; }
  VH_CHECK(pc.is_initialized(), "create", "created but not initialised"); { BLFormatInfo t = di; VH_OK(t.sanitize(), "sanitize"); }
  bool pal_ro = !(cf & BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE) || !(cf & BL_PIXEL_CONVERTER_CREATE_FLAG_ALTERABLE_PALETTE); if (s.idx && pal_ro) VH_CHECK(!memcmp(palkeep, s.pal, sizeof palkeep), "palette-changed", "%s: the caller's palette was modified (flags %u)", desc.c_str(), cf);
  Lay sm = s; memcpy(sm.pal, palkeep, sizeof palkeep); if (s.idx && !(cf & BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE)) memset(s.pal, 0x5A, sizeof s.pal); // The converter has its own copy.
  BLPixelConverter other; BLPixelConverter* use = &pc; int cp = int(r.below(6)); std::unique_ptr<BLPixelConverter> c2; if (cp == 0) { other = pc; pc.reset(); use = &other; } else if (cp == 1) { c2.reset(new BLPixelConverter(pc)); use = c2.get(); pc = other; } else if (cp == 2) { other.assign(pc); other = other; BLPixelConverter t(other); t.reset(); }
  BLPixelConverterOptions o; o.origin.reset(int(r.below(1000)), int(r.below(1000))); o.gap = gap; intptr_t ss = sneg ? -intptr_t(sst) : intptr_t(sst), ds = dneg ? -intptr_t(dst) : intptr_t(dst);
  if (h == 1 && r.chance(1, 2)) res = use->convert_span(drow(0), srow(0), w, opts ? &o : nullptr); else if (r.chance(1, 2)) res = use->convert_rect(drow(0), ds, srow(0), ss, w, h, opts ? &o : nullptr); else res = bl_pixel_converter_convert(use, drow(0), ds, srow(0), ss, w, h, opts ? &o : nullptr);
  VH_CHECK(res == BL_SUCCESS, "convert", "%s: convert reports %u", desc.c_str(), res);
  VH_CHECK(!memcmp(smem, skeep.data(), skeep.size()), "source-written", "%s: the source was modified", desc.c_str());
  // Nothing outside, gap cleared.
  std::vector<uint8_t> own(dsize, 0); for (uint32_t y = 0; y < h; y++) { uint8_t* q = own.data() + (drow(y) - dmem); for (size_t i = 0; i < db; i++) q[i] = 1; for (size_t i = 0; i < gap; i++) q[db + i] = 2; }
  for (size_t i = 0; i < dsize; i++) { if (own[i] == 0) VH_CHECK(dmem[i] == before[i], "outside", "%s, %ux%u gap %zu: byte %zu outside the rectangle was written", desc.c_str(), w, h, gap, i); if (own[i] == 2) VH_CHECK(dmem[i] == 0, "gap", "%s, %ux%u gap %zu: gap byte is %u", desc.c_str(), w, h, gap, dmem[i]); }
  bool raw = !s.idx && s.depth == d.depth && s.rgb == d.rgb && s.a == d.a && s.lum == d.lum && s.pre == d.pre && s.swap == d.swap && !memcmp(s.size, d.size, 4) && !memcmp(s.shift, d.shift, 4);
  uint64_t judged = 0; Hash hh; hh.add(s.depth).add(d.depth).add(s.size, 4).add(s.shift, 4).add(d.size, 4).add(d.shift, 4).add(s.idx).add(s.pre).add(d.pre).add(s.swap).add(d.swap).add(w).add(gap); distinct(hh.h);
  for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) {
    uint32_t sw = get_word(sm, srow(y), x), dw = get_word(d, drow(y), x); Pix p = decode(sm, sw); judged++;
    if (d.native && d.depth == 32 && !d.a) VH_CHECK((dw >> 24) == 255, "unused-byte", "%s: pixel %u,%u %08x became %08x, the unused byte isn't 255", desc.c_str(), x, y, sw, dw);
    if (raw) { uint32_t m = 0; for (int i = 0; i < 4; i++) if (d.size[i]) m |= uint32_t(maxv(d.size[i]) << d.shift[i]); VH_CHECK((sw & m) == (dw & m), "copy", "%s: pixel %u,%u is %08x, the source has %08x", desc.c_str(), x, y, dw, sw); continue; }
    if (!s.idx && !s.rgb && !s.lum && s.depth != 8) { continue; }
    // Value of every component in [0, 1] with the error the steps through 8 bits may add.
    double a = double(p.v[3]) / p.m[3], ea = p.m[3] == 255 ? 0 : 1.0 / 255;
    if (d.size[3]) { uint32_t v = (dw >> d.shift[3]) & uint32_t(maxv(d.size[3])), m = uint32_t(maxv(d.size[3])); if (m == p.m[3] && (m <= 255)) VH_CHECK(v == p.v[3], "alpha", "%s: pixel %u,%u %08x became %08x, alpha %u expected %u", desc.c_str(), x, y, sw, dw, v, p.v[3]); else { double e = ea + (m != 255 && m != 65535 ? 1.0 / m : 0) + 1e-9; VH_CHECK(fabs(double(v) / m - a) < e, "alpha", "%s: pixel %u,%u %08x became %08x, alpha %u/%u expected %.4f", desc.c_str(), x, y, sw, dw, v, m, a); } }
    if (!p.rgb && !d.rgb && !d.lum) continue;
    if (d.lum && !(p.v[0] * uint64_t(p.m[1]) == p.v[1] * uint64_t(p.m[0]) && p.v[1] * uint64_t(p.m[2]) == p.v[2] * uint64_t(p.m[1]))) continue;
    bool mul = p.a && !p.pre && (d.pre || !d.a), unmul = p.a && p.pre && d.a && !d.pre; if (!p.rgb && !p.a) continue;
    for (int i = 0; i < 3; i++) { if (!d.size[i]) continue; uint32_t m = uint32_t(maxv(d.size[i])), v = (dw >> d.shift[i]) & m; double c = double(p.v[i]) / p.m[i], e = p.m[i] == 255 ? 0 : 1.0 / 255; bool exact = m == p.m[i] && m <= 255;
      if (mul) { c *= a; e += ea + 0.5 / 255; exact = false; } else if (unmul) { if (p.v[3] == 0) { c = 0; e = 0; if (p.v[i]) continue; } else { if (e > 0 || ea > 0) { if (p.v[3] == p.m[3] && p.v[i] <= p.m[i]) {} else { e = (e + ea) / std::max(a, 1e-9) + 0.5 / 255; } } else e = 0.5 / 255 + 1e-6; if (c > a + 1e-12) continue; c = std::min(1.0, c / a); exact = false; } }
      if (exact) { VH_CHECK(v == p.v[i], "component", "%s: pixel %u,%u of %ux%u: %08x became %08x, component %d is %u, expected %u", desc.c_str(), x, y, w, h, sw, dw, i, v, p.v[i]); continue; }
      if (m != 255 && m != 65535) e += 1.0 / m; e += 1e-6; VH_CHECK(fabs(double(v) / m - c) <= e, "component", "%s: pixel %u,%u of %ux%u: %08x became %08x, component %d is %u/%u, expected %.4f (tolerance %.4f)", desc.c_str(), x, y, w, h, sw, dw, i, v, m, c, e); } }
  count("pixels", judged); count(raw ? "raw copies" : s.idx ? "indexed sources" : "conversions"); if (gap) count("with a gap"); if (d.swap || s.swap) count("byte swapped");
}
void vh_init() {}
void vh_case(uint64_t, Rng& rng) { for (int i = 0; i < 4; i++) case_p33(rng); }
void vh_finish() {}
