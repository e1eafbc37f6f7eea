// P14 encoders, P15 PNG, P16 BMP/QOI, P17 JPEG against independent codecs written here; P18 hostile image data.
#include "vh.h"
#include <zlib.h>
using namespace vh; typedef std::vector<uint8_t> Bytes;

static uint8_t g_fill = 0xA5; static size_t g_limit = size_t(64) << 20;
extern "C" void* __real_malloc(size_t n);
extern "C" void* __wrap_malloc(size_t n) { if (n > g_limit) return nullptr; void* p = __real_malloc(n); if (p) memset(p, g_fill, n); return p; }
static __attribute__((noinline)) void scribble(uint8_t v) { volatile uint8_t b[49152]; memset((void*)b, v, sizeof b); }

struct Img { int w = 0, h = 0; std::vector<uint32_t> px; uint32_t& at(int x, int y) { return px[size_t(y) * w + x]; } };
static uint32_t div255(uint32_t x) { return (x * 2 + 255) / 510; }
static uint32_t premul(uint32_t a, uint32_t r, uint32_t g, uint32_t b) { return a << 24 | div255(r * a) << 16 | div255(g * a) << 8 | div255(b * a); }
// Reads all pixels as premultiplied 32-bit values.
static Img pixels_of(const BLImage& im) {
  BLImageData d; VH_OK(im.get_data(&d), "get-data"); Img o; o.w = d.size.w; o.h = d.size.h; o.px.resize(size_t(o.w) * o.h);
  for (int y = 0; y < o.h; y++) { const uint8_t* r = (const uint8_t*)d.pixel_data + intptr_t(y) * d.stride; for (int x = 0; x < o.w; x++) { uint32_t v; if (d.format == BL_FORMAT_A8) v = r[x] * 0x01010101u; else { memcpy(&v, r + x * 4, 4); if (d.format == BL_FORMAT_XRGB32) v |= 0xFF000000u; } o.at(x, y) = v; } }
  return o;
}
static void put32b(Bytes& o, uint32_t v) { o.push_back(v >> 24); o.push_back(v >> 16); o.push_back(v >> 8); o.push_back(v); }
static void put16b(Bytes& o, uint32_t v) { o.push_back(v >> 8); o.push_back(v); }
static void put32(Bytes& o, uint32_t v) { o.push_back(v); o.push_back(v >> 8); o.push_back(v >> 16); o.push_back(v >> 24); }
static void put16(Bytes& o, uint32_t v) { o.push_back(v); o.push_back(v >> 8); }
static void app(Bytes& o, const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
static int rdim(Rng& r, int maxd) { int k = int(r.below(8)); return k == 0 ? 1 : k < 5 ? 1 + int(r.below(std::min(maxd, 20))) : 1 + int(r.below(maxd)); }

// ---------------------------------------------------------------- PNG writer
struct PngFrame { int x, y, w, h, dispose; std::vector<uint8_t> s; };
struct Png { int w = 1, h = 1, ct = 0, depth = 8, sc = 1; bool inter = false, cgbi = false; std::vector<uint32_t> pal; std::vector<uint8_t> trns; int key[3]; bool haskey = false; std::vector<uint8_t> s; /* samples */ std::vector<PngFrame> fr; int first_dispose = 0; bool fctl0 = true; Bytes file; std::vector<Img> want; std::string desc; size_t idat_end = 0, dim_off = 0; };
static void chunk(Bytes& o, const char* t, const Bytes& d) { put32b(o, uint32_t(d.size())); size_t p = o.size(); o.insert(o.end(), t, t + 4); app(o, d); put32b(o, uint32_t(crc32(0, &o[p], uInt(d.size() + 4)))); }
static Bytes zpack(Rng& r, const Bytes& in, bool raw) {
  z_stream z{}; static const int strat[] = {Z_DEFAULT_STRATEGY, Z_DEFAULT_STRATEGY, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED}; int lvl = int(r.below(10)), wb = 9 + int(r.below(7)); if (wb < 9) wb = 9;
  VH_ASSUME(deflateInit2(&z, lvl, Z_DEFLATED, raw ? -15 : wb, 8, r.pick(strat)) == Z_OK); Bytes o(deflateBound(&z, in.size()) + 64); z.next_in = (Bytef*)in.data(); z.avail_in = uInt(in.size()); z.next_out = o.data(); z.avail_out = uInt(o.size());
  VH_ASSUME(deflate(&z, Z_FINISH) == Z_STREAM_END); o.resize(z.total_out); deflateEnd(&z); return o;
}
static int paeth(int a, int b, int c) { int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); return pa <= pb && pa <= pc ? a : pb <= pc ? b : c; }
static void filter_rows(Rng& r, const std::vector<Bytes>& rows, size_t bpp, int fstyle, Bytes& out, uint32_t& used) {
  for (size_t y = 0; y < rows.size(); y++) { int f = fstyle < 5 ? fstyle : int(r.below(5)); used |= 1u << f; out.push_back(uint8_t(f)); const Bytes& c = rows[y];
    for (size_t i = 0; i < c.size(); i++) { int a = i >= bpp ? c[i - bpp] : 0, b = y ? rows[y - 1][i] : 0, cc = (i >= bpp && y) ? rows[y - 1][i - bpp] : 0; int pr = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : paeth(a, b, cc); out.push_back(uint8_t(c[i] - pr)); } }
}
static Bytes png_raw(Rng& r, const Png& p, const std::vector<uint8_t>& s, int w, int h, int fstyle, uint32_t& used) {
  static const int X0[] = {0,4,0,2,0,1,0}, Y0[] = {0,0,4,0,2,0,1}, DX[] = {8,8,4,4,2,2,1}, DY[] = {8,8,8,4,4,2,2}; Bytes out; size_t bpp = std::max<size_t>(1, size_t(p.depth) * p.sc / 8);
  for (int ps = 0; ps < (p.inter ? 7 : 1); ps++) { int x0 = p.inter ? X0[ps] : 0, y0 = p.inter ? Y0[ps] : 0, dx = p.inter ? DX[ps] : 1, dy = p.inter ? DY[ps] : 1; if (x0 >= w || y0 >= h) continue;
    std::vector<Bytes> rows; for (int y = y0; y < h; y += dy) { Bytes row; uint32_t acc = 0, n = 0; for (int x = x0; x < w; x += dx) for (int c = 0; c < p.sc; c++) { uint8_t v = s[(size_t(y) * w + x) * p.sc + c]; acc = acc << p.depth | v; n += p.depth; if (n == 8) { row.push_back(uint8_t(acc)); acc = n = 0; } } if (n) row.push_back(uint8_t(acc << (8 - n))); rows.push_back(row); }
    filter_rows(r, rows, bpp, fstyle, out, used); }
  return out;
}
static uint32_t png_color(const Png& p, const uint8_t* s) {
  uint32_t m = (1u << p.depth) - 1;
  switch (p.ct) { case 0: { if (p.haskey && s[0] == p.key[0]) return 0; uint32_t g = s[0] * 255 / m; return 0xFF000000u | g * 0x10101u; }
    case 2: if (p.haskey && s[0] == p.key[0] && s[1] == p.key[1] && s[2] == p.key[2]) return 0; return p.cgbi ? 0xFF000000u | s[2] << 16 | s[1] << 8 | s[0] : 0xFF000000u | s[0] << 16 | s[1] << 8 | s[2];
    case 3: { uint32_t c = p.pal[s[0]]; uint32_t a = s[0] < p.trns.size() ? p.trns[s[0]] : 255; return premul(a, c >> 16 & 255, c >> 8 & 255, c & 255); }
    case 4: return premul(s[1], s[0], s[0], s[0]);
    default: return p.cgbi ? uint32_t(s[3]) << 24 | s[2] << 16 | s[1] << 8 | s[0] : premul(s[3], s[0], s[1], s[2]); }
}
static void fill_samples(Rng& r, const Png& p, std::vector<uint8_t>& s, int w, int h) {
  s.resize(size_t(w) * h * p.sc); int m = p.ct == 3 ? int(p.pal.size()) : 1 << p.depth, style = int(r.below(4)); uint8_t base = uint8_t(r.below(m));
  for (size_t i = 0; i < s.size(); i++) { if (style == 0) s[i] = uint8_t(r.below(m)); else if (style == 1) s[i] = uint8_t((i / p.sc % w + i / p.sc / w * 3 + base) % m); else if (style == 2) s[i] = r.chance(1, 4) ? uint8_t(r.below(m)) : base; else s[i] = r.chance(1, 2) ? uint8_t(m - 1) : 0; }
  if (p.cgbi && p.ct == 6) for (size_t i = 0; i < s.size(); i += 4) for (int c = 0; c < 3; c++) s[i + c] = uint8_t(s[i + c] * s[i + 3] / 255);
  if (p.haskey) for (size_t i = 0; i + p.sc <= s.size(); i += p.sc) if (r.chance(1, 5)) for (int c = 0; c < p.sc; c++) s[i + c] = uint8_t(p.key[c]);
}
static Png make_png(Rng& r, int maxd, bool anim) {
  Png p; static const int cts[] = {0, 2, 3, 4, 6}, scs[] = {1, 3, 1, 2, 4}; int k = int(r.below(5)); p.ct = cts[k]; p.sc = scs[k]; static const int d0[] = {1, 2, 4, 8}; p.depth = p.ct == 0 || p.ct == 3 ? r.pick(d0) : 8; p.w = rdim(r, maxd); p.h = rdim(r, maxd); p.inter = r.chance(2, 5); p.cgbi = (p.ct == 2 || p.ct == 6) && r.chance(1, 12);
  Bytes plte; if (p.ct == 3 || ((p.ct == 2 || p.ct == 6) && r.chance(1, 8))) { size_t n = 1 + r.below(p.ct == 3 ? std::min(256, 1 << p.depth) : 256); if (r.chance(1, 3) && p.ct == 3) n = size_t(1) << p.depth; for (size_t i = 0; i < n; i++) { uint32_t c = r.u32() & 0xFFFFFF; p.pal.push_back(c); plte.push_back(c >> 16); plte.push_back(c >> 8); plte.push_back(c); } }
  Bytes trns; if (p.ct == 3 && r.chance(1, 2)) { size_t n = 1 + r.below(p.pal.size()); for (size_t i = 0; i < n; i++) { p.trns.push_back(uint8_t(r.chance(1, 4) ? 255 : r.chance(1, 4) ? 0 : r.u32())); } trns = p.trns; }
  if ((p.ct == 0 || (p.ct == 2 && !p.cgbi)) && r.chance(1, 3)) { p.haskey = true; for (int c = 0; c < p.sc; c++) { p.key[c] = int(r.below(1u << p.depth)); put16b(trns, p.key[c]); } }
  fill_samples(r, p, p.s, p.w, p.h);
  if (anim) { size_t n = 1 + r.below(4); p.fctl0 = r.chance(3, 4); p.first_dispose = int(r.below(3)); for (size_t i = 0; i < n; i++) { PngFrame f; f.w = 1 + int(r.below(p.w)); f.h = 1 + int(r.below(p.h)); f.x = int(r.below(p.w - f.w + 1)); f.y = int(r.below(p.h - f.h + 1)); f.dispose = int(r.below(3)); fill_samples(r, p, f.s, f.w, f.h); p.fr.push_back(f); } }
  Bytes& o = p.file; static const uint8_t sig[] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; o.assign(sig, sig + 8);
  if (p.cgbi) chunk(o, "CgBI", Bytes(4, 0x50)); p.dim_off = o.size() + 8; Bytes ih; put32b(ih, p.w); put32b(ih, p.h); ih.push_back(p.depth); ih.push_back(p.ct); ih.push_back(0); ih.push_back(0); ih.push_back(p.inter); chunk(o, "IHDR", ih);
  auto anc = [&](const char* n) { if (r.chance(1, 5)) { Bytes d(r.below(40)); for (auto& b : d) b = uint8_t(r.u32()); chunk(o, n, d); } };
  uint32_t seq = 0; if (anim) { Bytes d; put32b(d, uint32_t(p.fr.size()) + 1); put32b(d, uint32_t(r.below(3))); chunk(o, "acTL", d); }
  anc("gAMA"); anc("tEXt"); if (!plte.empty()) chunk(o, "PLTE", plte); anc("pHYs"); if (!trns.empty()) chunk(o, "tRNS", trns); anc("zTXt");
  auto fctl = [&](int x, int y, int w, int h, int disp) { Bytes d; put32b(d, seq++); put32b(d, w); put32b(d, h); put32b(d, x); put32b(d, y); put16b(d, 1); put16b(d, 10); d.push_back(uint8_t(disp)); d.push_back(0); chunk(o, "fcTL", d); };
  if (anim && p.fctl0) fctl(0, 0, p.w, p.h, p.first_dispose);
  int fstyle = int(r.below(9)); uint32_t used = 0;
  auto data = [&](const char* tag, const Bytes& z) { size_t i = 0; int split = int(r.below(4)); bool fd = tag[0] == 'f'; while (i < z.size() || !i) { size_t n = split == 0 ? z.size() : split == 1 ? 1 + r.below(3) : split == 2 ? 1 + r.below(64) : r.below(40); n = std::min(n, z.size() - i); Bytes d; if (fd) put32b(d, seq++); d.insert(d.end(), z.begin() + i, z.begin() + i + n); chunk(o, tag, d); i += n; if (!i && z.empty()) break; } if (r.chance(1, 6)) { Bytes d; if (fd) put32b(d, seq++); } };
  data("IDAT", zpack(r, png_raw(r, p, p.s, p.w, p.h, fstyle, used), p.cgbi)); p.idat_end = o.size(); anc("tIME");
  for (auto& f : p.fr) { fctl(f.x, f.y, f.w, f.h, f.dispose); data("fdAT", zpack(r, png_raw(r, p, f.s, f.w, f.h, fstyle, used), p.cgbi)); anc("tEXt"); }
  chunk(o, "IEND", Bytes());
  Img c; c.w = p.w; c.h = p.h; c.px.resize(size_t(p.w) * p.h); for (size_t i = 0; i < c.px.size(); i++) c.px[i] = png_color(p, &p.s[i * p.sc]); p.want.push_back(c);
  Img before = c; bool first_hidden = anim && !p.fctl0; int dx = 0, dy = 0, dw = p.w, dh = p.h, dd = p.first_dispose == 2 ? 1 : p.first_dispose; if (first_hidden) dd = 0;
  for (auto& f : p.fr) { if (dd == 1) for (int y = 0; y < dh; y++) for (int x = 0; x < dw; x++) c.at(dx + x, dy + y) = 0; else if (dd == 2) c = before; before = c; for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) c.at(f.x + x, f.y + y) = png_color(p, &f.s[(size_t(y) * f.w + x) * p.sc]); p.want.push_back(c); dx = f.x; dy = f.y; dw = f.w; dh = f.h; dd = f.dispose; }
  char b[120]; snprintf(b, sizeof b, "PNG %dx%d ct%d depth%d inter%d key%d pal%zu trns%zu cgbi%d frames%zu filters%x", p.w, p.h, p.ct, p.depth, p.inter, p.haskey, p.pal.size(), p.trns.size(), p.cgbi, p.fr.size(), used); p.desc = b; return p;
}

// ---------------------------------------------------------------- BMP writer
struct Simple { Bytes file; Img want; std::vector<uint8_t> judged; int tol = 0; std::string desc; size_t data_off = 0, need = 0; int w, h; };
static Simple make_bmp(Rng& r, int maxd) {
  Simple s; int w = s.w = rdim(r, maxd), h = s.h = rdim(r, maxd); static const int hs[] = {12, 40, 40, 52, 56, 108, 124}; int hdr = r.pick(hs); static const int dep[] = {1, 4, 8, 16, 24, 32}; int depth = r.pick(dep); if (hdr == 12 && (depth == 16 || depth == 32)) depth = 24;
  bool rle = hdr >= 40 && (depth == 4 || depth == 8) && r.chance(1, 2), topdown = hdr >= 40 && !rle && r.chance(1, 3); uint32_t comp = rle ? (depth == 8 ? 1 : 2) : 0; bool bf = hdr >= 40 && (depth == 16 || depth == 32) && r.chance(2, 3); uint32_t m[4] = {0, 0, 0, 0}; int sh[4], sz[4] = {0, 0, 0, 0};
  bool alpha = false;
  if (bf) { comp = 3; alpha = hdr >= 56 && r.chance(1, 2); if (hdr == 40 && r.chance(1, 4)) { comp = 6; alpha = true; }
    static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int std = int(r.below(3)); int tot = depth, order[4]; const int* pm = perm[r.below(6)]; int ap = int(r.below(4)), n = 0; for (int i = 0; i < 3; i++) { if (alpha && ap == i) order[n++] = 3; order[n++] = pm[i]; } if (alpha && ap == 3) order[n++] = 3;
    for (;;) { int sum = 0; for (int i = 0; i < n; i++) { sz[order[i]] = std == 0 ? (depth == 16 ? (alpha ? 4 : 5) : 8) : 1 + int(r.below(8)); if (std == 1 && depth == 16 && order[i] == 1 && !alpha) sz[1] = 6; sum += sz[order[i]]; } if (sum <= tot) { int slack = tot - sum, pos = 0; for (int i = 0; i < n; i++) { int g = std == 0 ? 0 : int(r.below(slack + 1)); slack -= g; pos += g; sh[order[i]] = pos; m[order[i]] = uint32_t(((uint64_t(1) << sz[order[i]]) - 1) << pos); pos += sz[order[i]]; } break; } } 
    for (int i = 0; i < 4; i++) if (sz[i] && sz[i] != 8) s.tol = 1; }
  else if (depth == 16) { s.tol = 1; for (int i = 0; i < 3; i++) { sz[i] = 5; sh[i] = 10 - 5 * i; } } else if (depth == 32) for (int i = 0; i < 3; i++) { sz[i] = 8; sh[i] = 16 - 8 * i; }
  if (hdr >= 52 && !bf && r.chance(1, 2)) { /* Masks are ignored unless the compression asks for them. */ }
  int npal = depth <= 8 ? (r.chance(1, 2) ? 1 << depth : 1 + int(r.below(1u << depth))) : 0; std::vector<uint32_t> pal; for (int i = 0; i < npal; i++) pal.push_back(r.u32() & 0xFFFFFF);
  s.want.w = w; s.want.h = h; s.want.px.assign(size_t(w) * h, 0xFF000000u); s.judged.assign(size_t(w) * h, 1); Bytes body;
  if (rle) { // Pixels in file order (bottom-up).
    std::fill(s.judged.begin(), s.judged.end(), 0); int x = 0, y = 0; auto set = [&](int x, int y, int v) { s.want.at(x, h - 1 - y) = 0xFF000000u | pal[v]; s.judged[size_t(h - 1 - y) * w + x] = 1; }; bool early = false; int skipstyle = int(r.below(3));
    while (y < h) { if (x >= w) { body.push_back(0); if (y + 1 == h && r.chance(1, 2)) { body.push_back(1); early = true; break; } body.push_back(0); x = 0; y++; continue; }
      int k = int(r.below(skipstyle ? 8 : 20));
      if (k == 0) { body.push_back(0); body.push_back(0); x = 0; y++; } else if (k == 1 && skipstyle == 1) { int dx = int(r.below(std::min(w - x, 255) + 1)), dy = int(r.below(std::min(h - y, 4))); if (x + dx > w) dx = 0; body.push_back(0); body.push_back(2); body.push_back(uint8_t(dx)); body.push_back(uint8_t(dy)); x += dx; y += dy; } else if (k == 2 && skipstyle == 2 && r.chance(1, 20)) { body.push_back(0); body.push_back(1); early = true; break; }
      else if (k < 5 && w - x >= 3) { int n = 3 + int(r.below(std::min(w - x, 255) - 2)); body.push_back(0); body.push_back(uint8_t(n)); size_t st = body.size(); for (int i = 0; i < n; i++) { int v = int(r.below(npal)); set(x + i, y, v); if (depth == 8) body.push_back(uint8_t(v)); else if (i & 1) body.back() |= v; else body.push_back(uint8_t(v << 4)); } if ((body.size() - st) & 1) body.push_back(0); x += n; }
      else { int n = 1 + int(r.below(std::min(w - x, 255))); int v0 = int(r.below(npal)), v1 = int(r.below(npal)); body.push_back(uint8_t(n)); body.push_back(uint8_t(depth == 8 ? v0 : v0 << 4 | v1)); for (int i = 0; i < n; i++) set(x + i, y, depth == 8 || !(i & 1) ? v0 : v1); x += n; } }
    if (!early && (h == 0 || true)) { body.push_back(0); body.push_back(1); } }
  else for (int y = 0; y < h; y++) { int iy = topdown ? y : h - 1 - y; size_t st = body.size(); uint32_t acc = 0, n = 0;
      for (int x = 0; x < w; x++) { uint32_t& o = s.want.at(x, iy);
        if (depth <= 8) { int v = int(r.below(npal)); o = 0xFF000000u | pal[v]; acc = acc << depth | v; n += depth; if (n == 8) { body.push_back(uint8_t(acc)); acc = n = 0; } }
        else if (depth == 24) { uint32_t c = r.u32(); o = 0xFF000000u | (c & 0xFFFFFF); body.push_back(c); body.push_back(c >> 8); body.push_back(c >> 16); }
        else { uint32_t raw = r.chance(1, 3) ? (r.chance(1, 2) ? ~0u : 0) : r.u32(), v[4] = {0, 0, 0, 255}; for (int c = 0; c < 4; c++) if (sz[c]) { uint32_t mx = (1u << sz[c]) - 1; v[c] = ((raw >> sh[c] & mx) * 510 + mx) / (2 * mx); } if (sz[3]) for (int c = 0; c < 3; c++) if (v[c] > v[3]) { raw &= ~(((1u << sz[c]) - 1) << sh[c]); v[c] = 0; } o = v[3] << 24 | v[0] << 16 | v[1] << 8 | v[2]; if (depth == 16) { body.push_back(raw); body.push_back(raw >> 8); } else put32(body, raw); } }
      if (n) body.push_back(uint8_t(acc << (8 - n))); while ((body.size() - st) & 3) body.push_back(uint8_t(r.u32())); }
  Bytes& o = s.file; Bytes info; uint32_t extra = hdr == 40 ? (comp == 3 ? 12 : comp == 6 ? 16 : 0) : 0; uint32_t palb = uint32_t(npal) * (hdr == 12 ? 3 : 4), off = 14 + hdr + extra + palb; if (depth > 8 && r.chance(1, 5)) off += uint32_t(r.below(64));
  o.push_back('B'); o.push_back('M'); put32(o, uint32_t(off + body.size())); put32(o, 0); put32(o, off); put32(o, hdr);
  if (hdr == 12) { put16(o, w); put16(o, h); put16(o, 1); put16(o, depth); } else { put32(o, w); put32(o, topdown ? -h : h); put16(o, 1); put16(o, depth); put32(o, comp); put32(o, rle || r.chance(1, 2) ? uint32_t(body.size()) : 0); put32(o, 2835); put32(o, 2835); put32(o, npal == (1 << depth) && r.chance(1, 2) ? 0 : npal); put32(o, 0);
    if (hdr >= 52) { for (int i = 0; i < 3; i++) put32(o, m[i]); if (hdr >= 56) put32(o, m[3]); } while (o.size() < size_t(14 + hdr)) o.push_back(0); if (extra) for (uint32_t i = 0; i < extra / 4; i++) put32(o, m[i]); }
  for (uint32_t c : pal) { o.push_back(c); o.push_back(c >> 8); o.push_back(c >> 16); if (hdr != 12) o.push_back(0); } while (o.size() < off) o.push_back(uint8_t(r.u32())); s.data_off = off; app(o, body); s.need = o.size(); if (r.chance(1, 6)) o.resize(o.size() + r.below(20));
  char b[160]; snprintf(b, sizeof b, "BMP %dx%d hdr%d depth%d comp%u topdown%d masks %x %x %x %x pal%d", w, h, hdr, depth, comp, topdown, m[0], m[1], m[2], m[3], npal); s.desc = b; return s;
}

// ---------------------------------------------------------------- QOI writer / reader
static uint32_t qh(uint32_t c) { return ((c >> 16 & 255) * 3 + (c >> 8 & 255) * 5 + (c & 255) * 7 + (c >> 24) * 11) & 63; }
static Simple make_qoi(Rng& r, int maxd) { // A stream of arbitrary chunks.
  Simple s; int w = s.w = rdim(r, maxd), h = s.h = rdim(r, maxd); int ch = r.chance(1, 2) ? 4 : 3; Bytes& o = s.file; static const char mg[] = "qoif"; o.assign(mg, mg + 4); put32b(o, w); put32b(o, h); o.push_back(uint8_t(ch)); o.push_back(uint8_t(r.below(2))); s.data_off = 14; s.want.w = w; s.want.h = h;
  uint32_t tab[64] = {0}, px = 0xFF000000u; bool set[64] = {false}; size_t n = size_t(w) * h; std::vector<uint32_t> v; int bias = int(r.below(7));
  while (v.size() < n) { int k = r.chance(1, 3) ? bias : int(r.below(7)); uint32_t a = px >> 24, R = px >> 16 & 255, G = px >> 8 & 255, B = px & 255;
    if (k == 0) { R = r.u32() & 255; G = r.u32() & 255; B = r.u32() & 255; o.push_back(0xFE); o.push_back(R); o.push_back(G); o.push_back(B); } else if (k == 1) { if (ch == 3) continue; uint32_t c = r.u32(); a = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : 255) : c >> 24; R = c >> 16 & 255; G = c >> 8 & 255; B = c & 255; o.push_back(0xFF); o.push_back(R); o.push_back(G); o.push_back(B); o.push_back(a); }
    else if (k == 2) { int i = int(r.below(64)); if (!set[i]) { bool any = false; for (int q = 0; q < 64; q++) any |= set[q]; if (!any) continue; while (!set[i]) i = (i + 1) & 63; } o.push_back(uint8_t(i)); uint32_t c = tab[i]; a = c >> 24; R = c >> 16 & 255; G = c >> 8 & 255; B = c & 255; }
    else if (k == 3) { int d = int(r.below(64)); o.push_back(uint8_t(0x40 | d)); R = (R + (d >> 4) - 2) & 255; G = (G + (d >> 2 & 3) - 2) & 255; B = (B + (d & 3) - 2) & 255; }
    else if (k == 4 || k == 5) { int dg = int(r.below(64)) , x = int(r.below(256)); o.push_back(uint8_t(0x80 | dg)); o.push_back(uint8_t(x)); dg -= 32; R = (R + dg - 8 + (x >> 4)) & 255; G = (G + dg) & 255; B = (B + dg - 8 + (x & 15)) & 255; }
    else { size_t run = 1 + r.below(std::min<size_t>(62, n - v.size())); o.push_back(uint8_t(0xC0 | (run - 1))); for (size_t i = 0; i < run; i++) v.push_back(px); tab[qh(px)] = px; set[qh(px)] = true; continue; }
    px = a << 24 | R << 16 | G << 8 | B; tab[qh(px)] = px; set[qh(px)] = true; v.push_back(px); }
  for (int i = 0; i < 7; i++) o.push_back(0); o.push_back(1); s.need = o.size() - 8; for (uint32_t c : v) s.want.px.push_back(ch == 3 ? c | 0xFF000000u : premul(c >> 24, c >> 16 & 255, c >> 8 & 255, c & 255)); s.judged.assign(n, 1);
  char b[80]; snprintf(b, sizeof b, "QOI %dx%d channels%d bias%d", w, h, ch, bias); s.desc = b; return s;
}

// ---------------------------------------------------------------- JPEG writer and exact decoder
static const uint8_t ZZ[64] = {0,1,8,16,9,2,3,10,17,24,32,25,18,11,4,5,12,19,26,33,40,48,41,34,27,20,13,6,7,14,21,28,35,42,49,56,57,50,43,36,29,22,15,23,30,37,44,51,58,59,52,45,38,31,39,46,53,60,61,54,47,55,62,63};
struct JTok { int tab; /* -1 raw bits, -2 restart */ int sym; uint32_t bits; int n; };
struct JComp { int hs, vs, q, bw, bh, pw, ph, nbw, nbh; std::vector<std::array<int16_t, 64>> c; std::vector<float> pl; int dc, ac; };
struct Jpeg { int w, h, nc, hm, vm; bool prog; std::vector<JComp> c; uint16_t q[4][64]; Bytes file; std::string desc; std::vector<std::array<double, 3>> want; size_t first_sos = 0; };
static void rand_lens(Rng& r, const std::vector<int>& syms, std::vector<uint8_t>& lens) { // complete code of syms plus a dummy symbol that takes the all-ones code
  size_t n = syms.size() + 1; std::vector<int> d{1, 1}; int style = int(r.below(3)); while (d.size() < n) { size_t k; if (style == 0) k = size_t(std::min_element(d.begin(), d.end()) - d.begin()); else if (style == 1) { k = d.size() - 1; if (d[k] >= 16 || r.chance(1, 10)) k = r.below(d.size()); } else k = r.below(d.size()); if (d[k] >= 16) k = size_t(std::min_element(d.begin(), d.end()) - d.begin()); d[k]++; d.push_back(d[k]); }
  size_t mx = size_t(std::max_element(d.begin(), d.end()) - d.begin()); std::swap(d[mx], d.back()); for (size_t i = n - 1; i > 1; i--) std::swap(d[i - 1], d[r.below(i)]); for (size_t i = 0; i < syms.size(); i++) lens[syms[i]] = uint8_t(d[i]);
}
struct JBits { Bytes& o; uint32_t acc = 0; int n = 0; void put(uint32_t v, int k) { for (int i = k - 1; i >= 0; i--) { acc = acc << 1 | (v >> i & 1); if (++n == 8) { o.push_back(uint8_t(acc)); if ((acc & 255) == 255) o.push_back(0); acc = 0; n = 0; } } } void flush() { while (n) put(1, 1); } };
static int mag(int v) { int a = abs(v), n = 0; while (a) { n++; a >>= 1; } return n; }
static uint32_t magbits(int v, int n) { return uint32_t(v < 0 ? v + (1 << n) - 1 : v) & ((1u << n) - 1); }
struct JWriter { Jpeg& j; Rng& r; Bytes& o; int ri = 0; 
  struct Scan { std::vector<int> comps; int ss, se, ah, al; };
  void scan(const Scan& s) {
    std::vector<JTok> t; std::vector<int> pred(j.nc, 0); uint32_t eobrun = 0; std::vector<uint8_t> pend; int tabAC = 4;
    auto flush_eob = [&](int ac) { if (!eobrun) return; int nb = 31 - __builtin_clz(eobrun); t.push_back({4 + ac, nb << 4, eobrun - (1u << nb), nb}); eobrun = 0; for (uint8_t b : pend) t.push_back({-1, 0, b, 1}); pend.clear(); }; (void)tabAC;
    auto block = [&](JComp& c, int ci, std::array<int16_t, 64>& b) {
      int k = s.ss;
      if (k == 0) { if (j.prog && s.ah) { t.push_back({-1, 0, uint32_t(b[0] >> s.al) & 1, 1}); } else { int v = j.prog ? b[0] >> s.al : b[0]; int d = v - pred[ci]; pred[ci] = v; int n = mag(d); t.push_back({c.dc, n, n ? magbits(d, n) : 0, n}); } k = 1; if (j.prog) return; }
      if (s.ah == 0) { int run = 0; for (; k <= s.se; k++) { int v = b[ZZ[k]]; v = v < 0 ? -(-v >> s.al) : v >> s.al; if (!v) { run++; continue; } flush_eob(c.ac); while (run > 15) { t.push_back({4 + c.ac, 0xF0, 0, 0}); run -= 16; } int n = mag(v); t.push_back({4 + c.ac, run << 4 | n, magbits(v, n), n}); run = 0; }
        if (run) { if (!j.prog) t.push_back({4 + c.ac, 0, 0, 0}); else { eobrun++; if (eobrun == 0x7FFF || r.chance(1, 40)) flush_eob(c.ac); } } }
      else { int eob = 0; for (int q = s.ss; q <= s.se; q++) if (abs(b[ZZ[q]]) >> s.al == 1) eob = q; int run = 0; std::vector<uint8_t> br;
        for (; k <= s.se; k++) { int cv = b[ZZ[k]], v = abs(cv) >> s.al; if (!v) { run++; continue; } while (run > 15 && k <= eob) { flush_eob(c.ac); t.push_back({4 + c.ac, 0xF0, 0, 0}); run -= 16; for (uint8_t x : br) t.push_back({-1, 0, x, 1}); br.clear(); } if (v > 1) { br.push_back(v & 1); continue; } flush_eob(c.ac); t.push_back({4 + c.ac, run << 4 | 1, cv < 0 ? 0u : 1u, 1}); for (uint8_t x : br) t.push_back({-1, 0, x, 1}); br.clear(); run = 0; }
        if (run || !br.empty()) { eobrun++; pend.insert(pend.end(), br.begin(), br.end()); if (eobrun == 0x7FFF || pend.size() > 900 || r.chance(1, 40)) flush_eob(c.ac); } } };
    for (int ci : s.comps) { j.c[ci].dc = int(r.below(j.prog ? 4 : 4)); j.c[ci].ac = int(r.below(4)); }
    int mw, mh; if (s.comps.size() == 1) { mw = j.c[s.comps[0]].nbw; mh = j.c[s.comps[0]].nbh; } else { mw = (j.w + 8 * j.hm - 1) / (8 * j.hm); mh = (j.h + 8 * j.vm - 1) / (8 * j.vm); }
    int cnt = 0, total = mw * mh, done = 0;
    for (int my = 0; my < mh; my++) for (int mx = 0; mx < mw; mx++) {
      if (s.comps.size() == 1) { JComp& c = j.c[s.comps[0]]; block(c, s.comps[0], c.c[size_t(my) * c.bw + mx]); } else for (int ci : s.comps) { JComp& c = j.c[ci]; for (int y = 0; y < c.vs; y++) for (int x = 0; x < c.hs; x++) block(c, ci, c.c[size_t(my * c.vs + y) * c.bw + mx * c.hs + x]); }
      done++; if (ri && ++cnt == ri && done < total) { flush_eob(j.c[s.comps[0]].ac); t.push_back({-2, 0, 0, 0}); cnt = 0; std::fill(pred.begin(), pred.end(), 0); } }
    flush_eob(j.c[s.comps[0]].ac);
    std::set<int> used[8]; for (auto& k : t) if (k.tab >= 0) used[k.tab].insert(k.sym); if (s.ss == 0 && !s.ah) for (int ci : s.comps) used[j.c[ci].dc].insert(0); if (s.se) for (int ci : s.comps) used[4 + j.c[ci].ac].insert(0);
    std::vector<uint8_t> lens[8]; std::vector<uint32_t> code[8]; Bytes all; bool joint = r.chance(1, 2);
    for (int k = 0; k < 8; k++) if (!used[k].empty()) { if (r.chance(1, 4)) for (int q = int(r.below(20)); q--;) used[k].insert(k < 4 ? int(r.below(12)) : int(r.below(16)) << 4 | (1 + int(r.below(10)))); if (k >= 4 && r.chance(1, 30)) for (int q = 0; q < 256; q++) if (used[k].size() < 255) used[k].insert(q);
      lens[k].assign(256, 0); rand_lens(r, std::vector<int>(used[k].begin(), used[k].end()), lens[k]); code[k].assign(256, 0); Bytes d; d.push_back(uint8_t((k >= 4) << 4 | (k & 3))); uint32_t cd = 0; Bytes vals; for (int l = 1; l <= 16; l++) { int n = 0; for (int q = 0; q < 256; q++) if (lens[k][q] == l) { code[k][q] = cd++; vals.push_back(uint8_t(q)); n++; } d.push_back(uint8_t(n)); cd <<= 1; } app(d, vals);
      if (joint) app(all, d); else { o.push_back(255); o.push_back(0xC4); put16b(o, uint32_t(d.size() + 2)); app(o, d); } }
    if (joint && !all.empty()) { o.push_back(255); o.push_back(0xC4); put16b(o, uint32_t(all.size() + 2)); app(o, all); }
    if (!j.first_sos) j.first_sos = o.size(); o.push_back(255); o.push_back(0xDA); put16b(o, uint32_t(6 + 2 * s.comps.size())); o.push_back(uint8_t(s.comps.size())); for (int ci : s.comps) { o.push_back(uint8_t(ci + 1)); o.push_back(uint8_t(j.c[ci].dc << 4 | j.c[ci].ac)); } o.push_back(uint8_t(s.ss)); o.push_back(uint8_t(s.se)); o.push_back(uint8_t(s.ah << 4 | s.al));
    JBits b{o}; int rst = 0; for (auto& k : t) { if (k.tab == -2) { b.flush(); o.push_back(255); o.push_back(uint8_t(0xD0 | rst)); rst = (rst + 1) & 7; continue; } if (k.tab >= 0) b.put(code[k.tab][k.sym], lens[k.tab][k.sym]); if (k.n) b.put(k.bits, k.n); } b.flush();
  } };
static double g_cos[8][8]; static void init_cos() { for (int x = 0; x < 8; x++) for (int u = 0; u < 8; u++) g_cos[x][u] = cos((2 * x + 1) * u * M_PI / 16) * (u ? 0.5 : 0.35355339059327376220); }
static Jpeg make_jpeg(Rng& r, int maxd) {
  Jpeg j; j.w = rdim(r, maxd); j.h = rdim(r, maxd); j.nc = r.chance(1, 4) ? 1 : 3; j.prog = r.chance(1, 2); j.hm = j.vm = 1; static const int ys[][2] = {{1,1},{2,1},{1,2},{2,2},{2,2},{2,1},{4,1},{1,4},{4,2},{2,4}};
  for (int i = 0; i < j.nc; i++) { JComp c; c.hs = c.vs = 1; c.q = int(r.below(4)); j.c.push_back(c); } if (j.nc == 1) { static const int gs[] = {1, 1, 2, 3}; j.c[0].hs = r.pick(gs); j.c[0].vs = r.pick(gs); }
  else { const int* s = ys[r.below(10)]; j.c[0].hs = s[0]; j.c[0].vs = s[1]; if (r.chance(1, 6)) { int k = int(r.below(3)); static const int f[] = {1, 2}; j.c[k].hs = r.pick(f); j.c[k].vs = r.pick(f); for (int i = 0; i < 3; i++) if (i != k) { j.c[i].hs = std::min(2, j.c[i].hs); j.c[i].vs = std::min(2, j.c[i].vs); } } }
  for (auto& c : j.c) { j.hm = std::max(j.hm, c.hs); j.vm = std::max(j.vm, c.vs); }
  int qs = int(r.below(4)); bool q16 = false; for (int k = 0; k < 4; k++) for (int i = 0; i < 64; i++) j.q[k][i] = uint16_t(qs == 0 ? 1 : qs == 1 ? 1 + r.below(8) : qs == 2 ? 2 + i / 4 + r.below(4) : 1 + r.below(255)); if (r.chance(1, 8)) { q16 = true; for (int k = 0; k < 4; k++) j.q[k][1 + r.below(63)] = uint16_t(256 + r.below(300)); }
  int mw = (j.w + 8 * j.hm - 1) / (8 * j.hm), mh = (j.h + 8 * j.vm - 1) / (8 * j.vm); bool gray1 = j.nc == 1;
  int content = int(r.below(4));
  for (auto& c : j.c) {
    c.pw = gray1 ? j.w : (j.w * c.hs + j.hm - 1) / j.hm; c.ph = gray1 ? j.h : (j.h * c.vs + j.vm - 1) / j.vm; c.nbw = (c.pw + 7) / 8; c.nbh = (c.ph + 7) / 8; c.bw = gray1 ? c.nbw : mw * c.hs; c.bh = gray1 ? c.nbh : mh * c.vs; c.c.resize(size_t(c.bw) * c.bh); c.pl.assign(size_t(c.bw) * 8 * c.bh * 8, 0);
    double fx = r.dbl(-6, 6), fy = r.dbl(-6, 6), ba = r.dbl(0, 255); int npre = 0;
    for (int by = 0; by < c.bh; by++) for (int bx = 0; bx < c.bw; bx++) { auto& b = c.c[size_t(by) * c.bw + bx]; b.fill(0); double s[64]; int style = content < 3 ? content : int(r.below(4));
      for (int i = 0; i < 64; i++) { int X = bx * 8 + (i & 7), Y = by * 8 + (i >> 3); double v = style == 0 ? ba + fx * X + fy * Y : style == 1 ? double(r.below(256)) : style == 2 ? ba + 60 * sin(X * 0.3 + ba) + 40 * cos(Y * 0.21) + r.dbl(-8, 8) : (((X / 5) ^ (Y / 3)) & 1 ? 240 : 12); s[i] = std::min(255.0, std::max(0.0, v)) - 128; }
      const uint16_t* q = j.q[c.q]; for (int v = 0; v < 8; v++) for (int u = 0; u < 8; u++) { double a = 0; for (int y = 0; y < 8; y++) for (int x = 0; x < 8; x++) a += s[y * 8 + x] * g_cos[x][u] * g_cos[y][v]; b[v * 8 + u] = int16_t(lrint(a / q[v * 8 + u])); }
      if (r.chance(1, 12)) { for (int n = int(r.below(6)); n--;) { int k = int(r.below(64)); int lim = 900 / q[k]; if (lim) b[k] = int16_t(r.range(-lim, lim)); } } (void)npre;
      for (int y = 0; y < 8; y++) for (int x = 0; x < 8; x++) { double a = 0; for (int v = 0; v < 8; v++) for (int u = 0; u < 8; u++) if (b[v * 8 + u]) a += double(b[v * 8 + u]) * q[v * 8 + u] * g_cos[x][u] * g_cos[y][v]; c.pl[size_t(by * 8 + y) * c.bw * 8 + bx * 8 + x] = float(std::min(255.0, std::max(0.0, a + 128))); } } }
  // Reference pixels.
  j.want.resize(size_t(j.w) * j.h);
  for (int ci = 0; ci < j.nc; ci++) { JComp& c = j.c[ci]; int hs = gray1 ? 1 : j.hm / c.hs, vs = gray1 ? 1 : j.vm / c.vs; int st = c.bw * 8, lw = (j.w + hs - 1) / hs; auto P = [&](int x, int y) { return double(c.pl[size_t(y) * st + x]); };
    for (int y = 0; y < j.h; y++) for (int x = 0; x < j.w; x++) { double v; bool fancy = hs <= 2 && vs <= 2; int sy = y / vs, fy = sy; if (fancy && vs == 2) fy = std::min(std::max((y & 1) ? sy + 1 : sy - 1, 0), c.ph - 1); int sx = x / hs, fx = sx; if (fancy && hs == 2) fx = std::min(std::max((x & 1) ? sx + 1 : sx - 1, 0), lw - 1);
      if (!fancy) v = P(sx, sy); else { double n = 0.75 * P(sx, sy) + 0.25 * P(sx, fy), f = 0.75 * P(fx, sy) + 0.25 * P(fx, fy); if (vs == 1) { n = P(sx, sy); f = P(fx, sy); } v = hs == 2 ? 0.75 * n + 0.25 * f : n; } j.want[size_t(y) * j.w + x][ci] = v; } }
  for (auto& p : j.want) { if (j.nc == 1) p[1] = p[2] = p[0]; else { double Y = p[0], cb = p[1] - 128, cr = p[2] - 128; p[0] = Y + 1.402 * cr; p[1] = Y - 0.344136 * cb - 0.714136 * cr; p[2] = Y + 1.772 * cb; } for (double& v : p) v = std::min(255.0, std::max(0.0, v)); }
  // File.
  Bytes& o = j.file; o = {0xFF, 0xD8}; auto seg = [&](uint8_t m, const Bytes& d) { while (r.chance(1, 20)) o.push_back(255); o.push_back(255); o.push_back(m); put16b(o, uint32_t(d.size() + 2)); app(o, d); };
  if (r.chance(2, 3)) { Bytes d = {'J', 'F', 'I', 'F', 0, 1, 2, 1, 0, 72, 0, 72, 0, 0}; if (r.chance(1, 4)) { d[12] = uint8_t(1 + r.below(5)); d[13] = uint8_t(1 + r.below(5)); for (int i = 0; i < d[12] * d[13] * 3; i++) d.push_back(uint8_t(r.u32())); } seg(0xE0, d); } if (r.chance(1, 4)) { Bytes d(r.below(50)); for (auto& b : d) b = uint8_t(r.u32()); seg(r.chance(1, 2) ? 0xFE : 0xE3, d); }
  auto dqt = [&](int k) { Bytes d; bool w = q16; for (int i = 0; i < 64; i++) if (j.q[k][i] > 255) w = true; d.push_back(uint8_t(w << 4 | k)); for (int i = 0; i < 64; i++) { if (w) d.push_back(uint8_t(j.q[k][ZZ[i]] >> 8)); d.push_back(uint8_t(j.q[k][ZZ[i]])); } return d; };
  std::set<int> uq; for (auto& c : j.c) uq.insert(c.q); bool early = r.chance(1, 2), jointq = r.chance(1, 3); auto emitq = [&]() { Bytes a; for (int k : uq) { if (jointq) app(a, dqt(k)); else seg(0xDB, dqt(k)); } if (jointq) seg(0xDB, a); }; if (early) emitq();
  Bytes d; d.push_back(8); put16b(d, j.h); put16b(d, j.w); d.push_back(uint8_t(j.nc)); for (int i = 0; i < j.nc; i++) { d.push_back(uint8_t(i + 1)); d.push_back(uint8_t(j.c[i].hs << 4 | j.c[i].vs)); d.push_back(uint8_t(j.c[i].q)); } seg(j.prog ? 0xC2 : q16 || r.chance(1, 4) ? 0xC1 : 0xC0, d); if (!early) emitq();
  JWriter W{j, r, o}; if (r.chance(1, 3)) { W.ri = 1 + int(r.below(r.chance(1, 2) ? 3 : 40)); Bytes x; put16b(x, W.ri); seg(0xDD, x); }
  std::vector<JWriter::Scan> scans; int blocks = 0; for (auto& c : j.c) blocks += c.hs * c.vs; bool inter = j.nc > 1 && blocks <= 10 && r.chance(3, 4);
  if (!j.prog) { if (inter || j.nc == 1) { JWriter::Scan s{{}, 0, 63, 0, 0}; for (int i = 0; i < j.nc; i++) s.comps.push_back(i); scans.push_back(s); } else if (r.chance(1, 3)) { scans.push_back({{0}, 0, 63, 0, 0}); if (j.c[1].hs * j.c[1].vs + j.c[2].hs * j.c[2].vs <= 10) scans.push_back({{1, 2}, 0, 63, 0, 0}); else { scans.push_back({{1}, 0, 63, 0, 0}); scans.push_back({{2}, 0, 63, 0, 0}); } } else for (int i = 0; i < j.nc; i++) scans.push_back({{i}, 0, 63, 0, 0}); }
  else { // Queues of scans with dependencies: per component list (DC first), shuffled merge.
    std::vector<std::vector<JWriter::Scan>> qu; int al = int(r.below(3)); std::vector<int> allc; for (int i = 0; i < j.nc; i++) allc.push_back(i);
    auto dcs = [&](const std::vector<int>& cs, int al) { std::vector<JWriter::Scan> q; q.push_back({cs, 0, 0, 0, al}); for (int a = al; a > 0; a--) q.push_back({cs, 0, 0, a, a - 1}); return q; };
    std::vector<JWriter::Scan> first; if (inter || j.nc == 1) { auto q = dcs(allc, al); first.push_back(q[0]); q.erase(q.begin()); qu.push_back(q); } else for (int i : allc) { auto q = dcs({i}, int(r.below(3))); first.push_back(q[0]); q.erase(q.begin()); qu.push_back(q); }
    for (int i : allc) { int k = 1; while (k <= 63) { int e = r.chance(1, 3) ? 63 : std::min(63, k + int(r.below(20))); int a = int(r.below(3)); std::vector<JWriter::Scan> q; q.push_back({{i}, k, e, 0, a}); for (; a > 0; a--) q.push_back({{i}, k, e, a, a - 1}); qu.push_back(q); k = e + 1; } }
    scans = first; for (;;) { std::vector<size_t> live; for (size_t i = 0; i < qu.size(); i++) if (!qu[i].empty()) live.push_back(i); if (live.empty()) break; size_t i = r.pick(live); scans.push_back(qu[i][0]); qu[i].erase(qu[i].begin()); } }
  for (auto& s : scans) W.scan(s); o.push_back(255); o.push_back(0xD9); if (r.chance(1, 8)) for (int i = int(r.below(10)); i--;) o.push_back(uint8_t(r.u32()));
  char b[160]; snprintf(b, sizeof b, "JPEG %dx%d nc%d prog%d sf %d%d,%d%d,%d%d ri%d scans%zu q%d content%d", j.w, j.h, j.nc, j.prog, j.c[0].hs, j.c[0].vs, j.nc > 1 ? j.c[1].hs : 0, j.nc > 1 ? j.c[1].vs : 0, j.nc > 1 ? j.c[2].hs : 0, j.nc > 1 ? j.c[2].vs : 0, W.ri, scans.size(), qs, content); j.desc = b; return j;
}

// ---------------------------------------------------------------- Running the library's decoders
struct Exact { uint8_t* p; size_t n; Exact(const Bytes& b, size_t len) : n(len) { p = (uint8_t*)__real_malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); } ~Exact() { free(p); } };
static BLImageCodec codec_of(const char* n) { BLImageCodec c; VH_OK(c.find_by_name(n), "find-codec"); return c; }
static Img opaque_if(Img g, bool x) { if (x) for (auto& c : g.px) c |= 0xFF000000u; return g; } // An image without alpha can't be cleared to transparent.
static void compare(const Img& got, const Img& want, const std::vector<uint8_t>* judged, int tol, const char* key, const std::string& d) {
  VH_CHECK(got.w == want.w && got.h == want.h, key, "%s: decoded size %dx%d", d.c_str(), got.w, got.h);
  for (size_t i = 0; i < want.px.size(); i++) { if (judged && !(*judged)[i]) continue; uint32_t a = got.px[i], b = want.px[i]; if (a == b) continue; bool ok = tol > 0; for (int s = 0; s < 32 && ok; s += 8) { int x = a >> s & 255, y = b >> s & 255; if (abs(x - y) > ((y == 0 || y == 255) ? 0 : tol)) ok = false; } if (!ok) fail(key, "%s: pixel (%zu,%zu) is %08x instead of %08x", d.c_str(), i % want.w, i / want.w, a, b); }
}
static Img decode_one(const char* codec, const Bytes& file, const std::string& d, const char* key, Rng& r, int w, int h) {
  Exact e(file, file.size()); BLImage im; int how = int(r.below(4));
  if (how == 0) { BLResult x = im.read_from_data(e.p, e.n); VH_CHECK(x == BL_SUCCESS, key, "%s: read_from_data failed with %u", d.c_str(), x); return pixels_of(im); }
  BLImageDecoder dec; VH_OK(codec_of(codec).create_decoder(&dec), "create-decoder"); BLImageInfo info; 
  if (how != 1) { BLResult x = dec.read_info(info, e.p, e.n); VH_CHECK(x == BL_SUCCESS, key, "%s: read_info failed with %u", d.c_str(), x); VH_CHECK(info.size.w == w && info.size.h == h && info.frame_count >= 1, key, "%s: info says %dx%d", d.c_str(), info.size.w, info.size.h); }
  if (how == 3) { im.create(rdim(r, 20), 3, BL_FORMAT_A8); }
  BLResult x = dec.read_frame(im, e.p, e.n); VH_CHECK(x == BL_SUCCESS, key, "%s: read_frame failed with %u", d.c_str(), x);
  return pixels_of(im);
}

static void case_png(Rng& r) {
  bool anim = r.chance(1, 10); Png p = make_png(r, r.chance(1, 20) ? 300 : 70, anim); distinct(hash_bytes(p.file.data(), p.file.size())); sample("%s (%zu bytes)", p.desc.c_str(), p.file.size()); if (st().verbose) printf("%s\n", p.desc.c_str());
  if (!anim) { Img g = decode_one("PNG", p.file, p.desc, "png-valid", r, p.w, p.h); compare(g, p.want[0], nullptr, 0, "png-pixels", p.desc); count("images"); if (p.inter) count("interlaced"); if (p.ct == 3) count("palette"); }
  else { Exact e(p.file, p.file.size()); BLImageDecoder dec; VH_OK(codec_of("PNG").create_decoder(&dec), "create-decoder"); BLImage im; BLImageInfo info; VH_OK(dec.read_info(info, e.p, e.n), "apng-info"); VH_CHECK(info.frame_count == p.want.size(), "apng-info", "%s: %llu frames reported", p.desc.c_str(), (unsigned long long)info.frame_count);
    for (size_t f = 0; f < p.want.size(); f++) { BLResult x = dec.read_frame(im, e.p, e.n); VH_CHECK(x == BL_SUCCESS, "apng-frame", "%s: frame %zu failed with %u", p.desc.c_str(), f, x); compare(opaque_if(pixels_of(im), im.format() == BL_FORMAT_XRGB32), opaque_if(p.want[f], im.format() == BL_FORMAT_XRGB32), nullptr, 0, "apng-pixels", p.desc + " frame " + std::to_string(f)); } count("animations");
    if (p.fctl0) { BLResult x = dec.read_frame(im, e.p, e.n); VH_CHECK(x == BL_SUCCESS, "apng-loop", "%s: the first frame of the loop failed with %u", p.desc.c_str(), x); compare(pixels_of(im), p.want[0], nullptr, 0, "apng-loop", p.desc); } }
  if (anim) return;
  // Structure violations have to be rejected.
  auto rejected = [&](const Bytes& f, const char* what) { Exact e(f, f.size()); BLImage im; BLResult x = im.read_from_data(e.p, e.n); VH_CHECK(x != BL_SUCCESS, "png-invalid-accepted", "%s: %s is accepted", p.desc.c_str(), what); count("rejected"); };
  { size_t idat = 0; for (size_t q = 8; q + 12 <= p.file.size();) { uint32_t n = p.file[q] << 24 | p.file[q + 1] << 16 | p.file[q + 2] << 8 | p.file[q + 3]; if (!memcmp(&p.file[q + 4], "IDAT", 4)) { idat = q; break; } q += 12 + n; } 
    Bytes f(p.file.begin(), p.file.begin() + r.below(p.idat_end - 20)); 
    size_t total = 0, kept = 0; for (size_t q = 8; q + 12 <= p.file.size();) { uint32_t n = p.file[q] << 24 | p.file[q + 1] << 16 | p.file[q + 2] << 8 | p.file[q + 3]; if (!memcmp(&p.file[q + 4], "IDAT", 4)) { total += n; if (q + 12 + n <= f.size()) kept += n; } q += 12 + n; }
    if (total - kept > 4 || f.size() <= idat + 8) rejected(f, "a truncated file"); // Less than that may only cut the checksum.
    if (p.ct == 3) { Bytes f2; f2.assign(p.file.begin(), p.file.begin() + 33); for (size_t q = 33; q + 12 <= p.file.size();) { uint32_t n = p.file[q] << 24 | p.file[q + 1] << 16 | p.file[q + 2] << 8 | p.file[q + 3]; if (memcmp(&p.file[q + 4], "PLTE", 4) && memcmp(&p.file[q + 4], "tRNS", 4)) f2.insert(f2.end(), p.file.begin() + q, p.file.begin() + q + 12 + n); q += 12 + n; } rejected(f2, "an indexed image without palette"); }
    { Bytes f3 = p.file; size_t o = p.dim_off; int w2 = p.w + 8 + int(r.below(40)); f3[o] = 0; f3[o + 1] = 0; f3[o + 2] = uint8_t(w2 >> 8); f3[o + 3] = uint8_t(w2); if (!p.inter) rejected(f3, "a file with less pixel data than its width needs"); }
    { Bytes f4 = p.file; int k = int(r.below(5)); size_t o = p.dim_off; switch (k) { case 0: f4[o + 8] = 3; break; case 1: f4[o + 9] = 5; break; case 2: f4[o + 10] = 1; break; case 3: f4[o + 11] = 1; break; default: f4[o + 12] = 2; } rejected(f4, "an invalid header field"); } }
  if (!p.cgbi && r.chance(1, 6)) { // A damaged Adler-32 of the data stream (single IDAT at the end).
    Png q = p; Bytes z; uint32_t used = 0; Bytes raw = png_raw(r, p, p.s, p.w, p.h, 0, used); z = zpack(r, raw, false); z[z.size() - 1 - r.below(4)] ^= uint8_t(1 + r.below(255)); Bytes f(p.file.begin(), p.file.begin()); size_t pos = 8; f.assign(p.file.begin(), p.file.begin() + 8); bool done = false; while (pos + 12 <= p.file.size()) { uint32_t n = p.file[pos] << 24 | p.file[pos + 1] << 16 | p.file[pos + 2] << 8 | p.file[pos + 3]; if (!memcmp(&p.file[pos + 4], "IDAT", 4)) { if (!done) chunk(f, "IDAT", z); done = true; } else f.insert(f.end(), p.file.begin() + pos, p.file.begin() + pos + 12 + n); pos += 12 + n; }
    Exact e(f, f.size()); BLImage im; if (im.read_from_data(e.p, e.n) == BL_SUCCESS) report("checksum-unchecked", "%s: a data stream with a wrong checksum is accepted", p.desc.c_str()); }
}
static void case_simple(Rng& r) {
  bool bmp = r.chance(1, 2); Simple s = bmp ? make_bmp(r, r.chance(1, 20) ? 300 : 60) : make_qoi(r, r.chance(1, 20) ? 300 : 60); distinct(hash_bytes(s.file.data(), s.file.size())); sample("%s", s.desc.c_str()); if (st().verbose) printf("%s\n", s.desc.c_str());
  Img g = decode_one(bmp ? "BMP" : "QOI", s.file, s.desc, bmp ? "bmp-valid" : "qoi-valid", r, s.w, s.h); compare(g, s.want, &s.judged, s.tol, bmp ? "bmp-pixels" : "qoi-pixels", s.desc); count(bmp ? "BMP images" : "QOI images");
  // Truncated files.
  size_t n = r.chance(1, 2) ? r.below(s.need) : s.need - 1 - r.below(std::min<size_t>(s.need - 1, 6)); if (bmp && n >= s.data_off && s.desc.find("comp1") != std::string::npos) n = s.need - 2 - r.below(4);
  Exact e(s.file, n); BLImage im; BLResult x = im.read_from_data(e.p, e.n); VH_CHECK(x != BL_SUCCESS, "truncated-accepted", "%s: the first %zu of %zu bytes are accepted", s.desc.c_str(), n, s.need); count("truncated");
}
static void case_jpeg(Rng& r) {
  Jpeg j = make_jpeg(r, r.chance(1, 20) ? 260 : 64); distinct(hash_bytes(j.file.data(), j.file.size())); sample("%s (%zu bytes)", j.desc.c_str(), j.file.size()); if (st().verbose) { printf("%s\n", j.desc.c_str()); FILE* f = fopen("/tmp/vhcase.jpg", "wb"); if (f) { fwrite(j.file.data(), 1, j.file.size(), f); fclose(f); } }
  Img g = decode_one("JPEG", j.file, j.desc, "jpeg-valid", r, j.w, j.h); VH_CHECK(g.w == j.w && g.h == j.h, "jpeg-size", "%s: %dx%d", j.desc.c_str(), g.w, g.h); double tol = j.nc == 1 ? 1.3 : 5.5, sq = 0; size_t n = 0;
  for (size_t i = 0; i < g.px.size(); i++) { uint32_t v = g.px[i]; VH_CHECK(v >> 24 == 255, "jpeg-alpha", "%s", j.desc.c_str()); for (int c = 0; c < 3; c++) { int x = v >> (16 - 8 * c) & 255; double e = x - j.want[i][c]; VH_CHECK(fabs(e) <= tol, "jpeg-pixels", "%s: pixel (%zu,%zu) channel %d is %d, the exact value is %.2f", j.desc.c_str(), i % j.w, i / j.w, c, x, j.want[i][c]); sq += e * e; n++; } }
  if (g.px.size() >= 200) { VH_CHECK(sqrt(sq / n) < (j.nc == 1 ? 0.6 : 1.3), "jpeg-error", "%s: rms error %.3f", j.desc.c_str(), sqrt(sq / n)); }
  count("images"); if (j.prog) count("progressive"); if (j.nc == 1) count("grayscale"); if (j.desc.find("ri0") == std::string::npos) count("restart intervals");
}

// ---------------------------------------------------------------- P14: encoders against independent decoders
static bool ref_png(const Bytes& f, Img& o, std::string& err, size_t& chunks) {
  if (f.size() < 8 || memcmp(f.data(), "\x89PNG\r\n\x1a\n", 8)) { err = "signature"; return false; } size_t p = 8; Bytes z; int w = 0, h = 0, ct = 0, bd = 0; bool end = false, first = true, idat_done = false; chunks = 0; Bytes plte, trns;
  while (p + 12 <= f.size()) { uint32_t n = f[p] << 24 | f[p + 1] << 16 | f[p + 2] << 8 | f[p + 3]; if (p + 12 + n > f.size()) { err = "chunk size"; return false; } const uint8_t* t = &f[p + 4]; uint32_t c = f[p + 8 + n] << 24 | f[p + 9 + n] << 16 | f[p + 10 + n] << 8 | f[p + 11 + n]; if (c != crc32(0, t, n + 4)) { err = "CRC"; return false; } chunks++;
    if (first != !memcmp(t, "IHDR", 4)) { err = "IHDR position"; return false; } first = false; const uint8_t* d = t + 4;
    if (!memcmp(t, "IHDR", 4)) { if (n != 13) { err = "IHDR"; return false; } w = d[0] << 24 | d[1] << 16 | d[2] << 8 | d[3]; h = d[4] << 24 | d[5] << 16 | d[6] << 8 | d[7]; bd = d[8]; ct = d[9]; if (d[10] || d[11] || d[12]) { err = "IHDR methods"; return false; } }
    else if (!memcmp(t, "IDAT", 4)) { if (idat_done) { err = "IDAT order"; return false; } z.insert(z.end(), d, d + n); } else { if (!z.empty()) idat_done = true; if (!memcmp(t, "IEND", 4)) { if (n) { err = "IEND"; return false; } p += 12 + n; end = true; break; } if (!(t[0] & 32)) { err = "critical chunk"; return false; } }
    p += 12 + n; }
  if (!end || p != f.size()) { err = "end of file"; return false; } int sc = ct == 0 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : ct == 6 ? 4 : 0; if (!sc || bd != 8) { err = "color type"; return false; }
  size_t bpl = size_t(w) * sc + 1; Bytes raw(bpl * h + 64); z_stream s{}; VH_ASSUME(inflateInit(&s) == Z_OK); s.next_in = z.data(); s.avail_in = uInt(z.size()); s.next_out = raw.data(); s.avail_out = uInt(raw.size()); int rc = inflate(&s, Z_FINISH); size_t got = s.total_out, left = s.avail_in; inflateEnd(&s); if (rc != Z_STREAM_END || left) { err = "zlib stream"; return false; } if (got != bpl * h) { err = "pixel data size"; return false; }
  o.w = w; o.h = h; o.px.resize(size_t(w) * h); Bytes prev(bpl, 0); for (int y = 0; y < h; y++) { uint8_t* q = &raw[size_t(y) * bpl]; int ft = q[0]; if (ft > 4) { err = "filter"; return false; } for (size_t i = 1; i < bpl; i++) { int a = i > size_t(sc) ? q[i - sc] : 0, b = prev[i], c = i > size_t(sc) ? prev[i - sc] : 0; q[i] = uint8_t(q[i] + (ft == 0 ? 0 : ft == 1 ? a : ft == 2 ? b : ft == 3 ? (a + b) / 2 : paeth(a, b, c))); } memcpy(prev.data(), q, bpl); for (int x = 0; x < w; x++) { const uint8_t* v = q + 1 + x * sc; o.at(x, y) = sc == 1 ? 0xFF000000u | v[0] * 0x10101u : sc == 2 ? uint32_t(v[1]) << 24 | v[0] * 0x10101u : sc == 3 ? 0xFF000000u | v[0] << 16 | v[1] << 8 | v[2] : uint32_t(v[3]) << 24 | v[0] << 16 | v[1] << 8 | v[2]; } }
  return true;
}
static bool ref_bmp(const Bytes& f, Img& o, std::string& err, bool& has_alpha) {
  auto u32 = [&](size_t p) { return uint32_t(f[p]) | f[p + 1] << 8 | f[p + 2] << 16 | uint32_t(f[p + 3]) << 24; }; auto u16 = [&](size_t p) { return uint32_t(f[p]) | f[p + 1] << 8; }; has_alpha = false;
  if (f.size() < 54 || f[0] != 'B' || f[1] != 'M') { err = "signature"; return false; } if (u32(2) != f.size()) { err = "file size field"; return false; } uint32_t off = u32(10), hs = u32(14); if (hs != 40 && hs != 108 && hs != 124 && hs != 52 && hs != 56) { err = "header size"; return false; } int32_t w = int32_t(u32(18)), h = int32_t(u32(22)); bool td = h < 0; h = abs(h); uint32_t bpp = u16(28), comp = u32(30), isz = u32(34), used = u32(46); if (u16(26) != 1) { err = "planes"; return false; }
  uint32_t m[4] = {0xFF0000, 0xFF00, 0xFF, 0}; if (comp == 3) { size_t mo = 54; if (off < mo + 12) { err = "masks"; return false; } for (int i = 0; i < 3; i++) m[i] = u32(mo + 4 * i); m[3] = hs >= 56 ? u32(mo + 12) : 0; } else if (comp != 0) { err = "compression"; return false; }
  size_t bpl = (size_t(w) * bpp + 31) / 32 * 4; if (off + bpl * h > f.size() || (isz && isz != bpl * h)) { err = "image size"; return false; } size_t np = bpp <= 8 ? (used ? used : 1u << bpp) : 0, po = 14 + hs; if (np && off < po + np * 4) { err = "palette"; return false; } has_alpha = m[3] != 0;
  o.w = w; o.h = h; o.px.resize(size_t(w) * h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const size_t q = off + bpl * (td ? y : h - 1 - y); uint32_t v; if (bpp == 8) { uint32_t i = f[q + x]; if (i >= np) { err = "palette index"; return false; } v = 0xFF000000u | (u32(po + i * 4) & 0xFFFFFF); } else if (bpp == 24) v = 0xFF000000u | f[q + x * 3 + 2] << 16 | f[q + x * 3 + 1] << 8 | f[q + x * 3]; else if (bpp == 32) { uint32_t p = u32(q + x * 4); auto ex = [&](uint32_t mk) { return mk ? (p & mk) >> __builtin_ctz(mk) & 255 : 255u; }; v = ex(m[3]) << 24 | ex(m[0]) << 16 | ex(m[1]) << 8 | ex(m[2]); } else { err = "depth"; return false; } o.at(x, y) = v; }
  for (int y = 0; y < h; y++) for (size_t k = (size_t(w) * bpp + 7) / 8; k < bpl; k++) if (f[off + bpl * y + k]) { err = "padding isn't zero"; return false; }
  return true;
}
static bool ref_qoi(const Bytes& f, Img& o, std::string& err) {
  if (f.size() < 22 || memcmp(f.data(), "qoif", 4)) { err = "header"; return false; } int w = f[4] << 24 | f[5] << 16 | f[6] << 8 | f[7], h = f[8] << 24 | f[9] << 16 | f[10] << 8 | f[11], ch = f[12]; if ((ch != 3 && ch != 4) || f[13] > 1) { err = "channels"; return false; } static const uint8_t tail[8] = {0,0,0,0,0,0,0,1}; if (memcmp(&f[f.size() - 8], tail, 8)) { err = "end marker"; return false; }
  size_t p = 14, e = f.size() - 8, n = size_t(w) * h; uint32_t tab[64] = {0}, px = 0xFF000000u; o.w = w; o.h = h; o.px.clear();
  while (o.px.size() < n) { if (p >= e) { err = "data ends early"; return false; } uint8_t b = f[p++]; size_t run = 1; if (b == 0xFE) { if (p + 3 > e) { err = "short"; return false; } px = (px & 0xFF000000u) | f[p] << 16 | f[p + 1] << 8 | f[p + 2]; p += 3; } else if (b == 0xFF) { if (p + 4 > e) { err = "short"; return false; } px = uint32_t(f[p + 3]) << 24 | f[p] << 16 | f[p + 1] << 8 | f[p + 2]; p += 4; } else if (b < 64) px = tab[b]; else if (b < 128) { uint32_t r = (px >> 16) + (b >> 4 & 3) - 2, g = (px >> 8) + (b >> 2 & 3) - 2, bl = px + (b & 3) - 2; px = (px & 0xFF000000u) | (r & 255) << 16 | (g & 255) << 8 | (bl & 255); } else if (b < 192) { int dg = (b & 63) - 32; uint8_t x = f[p++]; uint32_t r = (px >> 16) + dg - 8 + (x >> 4), g = (px >> 8) + dg, bl = px + dg - 8 + (x & 15); px = (px & 0xFF000000u) | (r & 255) << 16 | (g & 255) << 8 | (bl & 255); } else run = (b & 63) + 1; tab[qh(px)] = px; while (run--) o.px.push_back(ch == 3 ? px | 0xFF000000u : px); }
  if (o.px.size() != n) { err = "run past the end"; return false; } if (p != e) { err = "extra data"; return false; } return true;
}
static void case_encode(Rng& r) {
  int w = rdim(r, r.chance(1, 25) ? 600 : 60), h = rdim(r, r.chance(1, 25) ? 300 : 40); static const BLFormat fs[] = {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}; BLFormat fm = r.pick(fs); int bpp = fm == BL_FORMAT_A8 ? 1 : 4; static const char* cs[] = {"PNG", "BMP", "QOI"}; const char* cn = r.pick(cs); int pad = r.chance(1, 2) ? 0 : int(r.below(40)) * (bpp == 4 ? 4 : 1); bool neg = r.chance(1, 4);
  intptr_t stride = intptr_t(w) * bpp + pad; size_t total = size_t(stride) * (h - 1) + size_t(w) * bpp; uint8_t* mem = (uint8_t*)__real_malloc(total); for (size_t i = 0; i < total; i++) mem[i] = uint8_t(r.u32()); std::unique_ptr<uint8_t, void(*)(void*)> guard(mem, free); uint8_t* top = neg ? mem + stride * (h - 1) : mem; if (neg) stride = -stride;
  Img want; want.w = w; want.h = h; want.px.resize(size_t(w) * h); int style = int(r.below(5)); uint32_t last = 0;
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t c; if (style == 0) c = r.u32(); else if (style == 1) c = r.chance(1, 3) ? r.u32() : last; else if (style == 2) c = last + (r.u32() & 0x03030303); else if (style == 3) c = 0x11223344 * uint32_t(r.below(6)); else c = r.chance(1, 50) ? r.u32() : last; last = c;
    uint8_t* q = top + y * stride + x * bpp; if (fm == BL_FORMAT_A8) { *q = uint8_t(c); want.at(x, y) = uint8_t(c) * 0x01010101u; } else { uint32_t a = c >> 24; if (style == 3 && r.chance(1, 2)) a = 255; if (style == 4) a = (a & 1) ? 255 : 0; uint32_t v = fm == BL_FORMAT_PRGB32 ? premul(a, c >> 16 & 255, c >> 8 & 255, c & 255) : c; memcpy(q, &v, 4); want.at(x, y) = fm == BL_FORMAT_PRGB32 ? v : v | 0xFF000000u; } }
  Bytes before(mem, mem + total); BLImage im; if (r.chance(3, 4)) VH_OK(im.create_from_data(w, h, fm, top, stride), "create-from-data"); else { VH_OK(im.create(w, h, fm), "create"); BLImageData d; VH_OK(im.make_mutable(&d), "mutable"); for (int y = 0; y < h; y++) memcpy((uint8_t*)d.pixel_data + y * d.stride, top + y * stride, size_t(w) * bpp); }
  BLImageEncoder enc; VH_OK(codec_of(cn).create_encoder(&enc), "create-encoder"); int level = -1; if (!strcmp(cn, "PNG") && r.chance(3, 4)) { level = int(r.below(13)); VH_OK(enc.set_property("compression", BLVar(uint64_t(level))), "set-compression"); BLVar v; VH_OK(enc.get_property("compression", v), "get-compression"); uint64_t lv = 99; v.to_uint64(&lv); VH_CHECK(lv == uint64_t(level), "compression-property", "set %d read %llu", level, (unsigned long long)lv); }
  char desc[120]; snprintf(desc, sizeof desc, "%s %dx%d format%d stride%ld level%d style%d", cn, w, h, int(fm), long(stride), level, style); if (st().verbose) puts(desc);
  BLArray<uint8_t> out; BLResult x; if (r.chance(1, 3)) { BLImageCodec c = codec_of(cn); x = im.write_to_data(out, c); level = -1; } else x = enc.write_frame(out, im); VH_CHECK(x == BL_SUCCESS, "encode-failed", "%s: %u", desc, x); VH_CHECK(!memcmp(mem, before.data(), total), "source-changed", "%s", desc);
  Bytes f(out.data(), out.data() + out.size()); distinct(hash_bytes(f.data(), f.size())); sample("%s -> %zu bytes", desc, f.size()); Img ref; std::string err; bool ok, alpha = true, straight = true; size_t chunks = 0; if (cn[0] == 'P') ok = ref_png(f, ref, err, chunks); else if (cn[0] == 'B') { ok = ref_bmp(f, ref, err, alpha); straight = false; } else ok = ref_qoi(f, ref, err);
  VH_CHECK(ok, "not-conforming", "%s: the file violates its format: %s", desc, err.c_str()); VH_CHECK(ref.w == w && ref.h == h, "encoded-size", "%s", desc); if (fm == BL_FORMAT_PRGB32) VH_CHECK(alpha, "alpha-lost", "%s: the file has no alpha channel", desc);
  for (size_t i = 0; i < want.px.size(); i++) { uint32_t a = want.px[i], b = ref.px[i]; if (fm == BL_FORMAT_A8) { uint32_t v = a & 255; bool good = b == (0xFF000000u | v * 0x10101u) || b == (v << 24) || b == (v << 24 | 0xFFFFFF); if (cn[0] != 'B' && cn[0] != 'P' && b >> 24 == v) good = true; VH_CHECK(good, "encoded-pixels", "%s: pixel %zu is stored as %08x, the image has %02x", desc, i, b, v); continue; }
    if (straight) { uint32_t pa = b >> 24; uint32_t pm = premul(pa, b >> 16 & 255, b >> 8 & 255, b & 255); VH_CHECK(pm == a, "encoded-pixels", "%s: pixel %zu is stored as %08x which premultiplies to %08x, the image has %08x", desc, i, b, pm, a); if (pa == 255) VH_CHECK(b == a, "encoded-pixels", "%s: opaque pixel %zu", desc, i); } else VH_CHECK(a == b, "encoded-pixels", "%s: pixel %zu is stored as %08x, the image has %08x", desc, i, b, a); }
  BLImage back; { Exact e(f, f.size()); x = back.read_from_data(e.p, e.n); } VH_CHECK(x == BL_SUCCESS, "own-file-rejected", "%s: %u", desc, x); Img g = pixels_of(back);
  for (size_t i = 0; i < want.px.size(); i++) { uint32_t a = want.px[i], b = g.px[i]; if (fm == BL_FORMAT_A8) { uint32_t v = a & 255; bool good = b == (0xFF000000u | v * 0x10101u) || b == v * 0x01010101u || b == v << 24; VH_CHECK(good, "round-trip", "%s: pixel %zu comes back as %08x, the image has %02x", desc, i, b, v); } else VH_CHECK(a == b, "round-trip", "%s: pixel %zu comes back as %08x, was %08x", desc, i, b, a); }
  // The same encoder after a restart produces the same bytes.
  if (r.chance(1, 4)) { BLArray<uint8_t> o1, o2; VH_OK(enc.restart(), "restart"); VH_OK(enc.write_frame(o1, im), "restart"); VH_OK(enc.restart(), "restart"); VH_OK(enc.write_frame(o2, im), "restart"); VH_CHECK(o1.equals(o2), "encoder-restart", "%s", desc); if (r.chance(1, 3)) { std::string fn = st().scratch + "/img" + std::to_string(st().shard) + ".bin"; VH_OK(im.write_to_file(fn.c_str(), codec_of(cn)), "write-file"); BLImage b2; VH_OK(b2.read_from_file(fn.c_str()), "read-file"); Img g2 = pixels_of(b2); VH_CHECK(g2.px == g.px, "file-round-trip", "%s", desc); unlink(fn.c_str()); count("files"); } }
  count(cn); 
}

// ---------------------------------------------------------------- P18: hostile data
struct Outcome { std::vector<uint64_t> v; bool operator==(const Outcome& o) const { return v == o.v; } };
static uint64_t hash_image(const BLImage& im) { Img g = pixels_of(im); Hash h; h.add(g.w).add(g.h).add(uint32_t(im.format())); h.add(g.px.data(), g.px.size() * 4); return h.h; }
static void usable(BLImage& im, const char* d) { BLImageData dt; VH_CHECK(im.get_data(&dt) == BL_SUCCESS, "image-invalid", "%s", d); if (dt.size.w > 0) { VH_CHECK(dt.pixel_data && dt.format >= BL_FORMAT_PRGB32 && dt.format <= BL_FORMAT_MAX_VALUE, "image-invalid", "%s: no pixels", d); pixels_of(im); } BLImage c(im); VH_CHECK(c.make_mutable(&dt) == BL_SUCCESS || im.width() > 2000, "image-invalid", "%s: make_mutable", d); }
static Outcome flow(const Bytes& f, const char* codec, const char* d, uint8_t fill, bool preset) {
  g_fill = fill; Outcome o; Exact e(f, f.size()); BLImageDecoder dec; VH_OK(codec_of(codec).create_decoder(&dec), "create-decoder");
  for (int round = 0; round < 2; round++) { BLImage im; if (preset) im.create(7, 5, BL_FORMAT_PRGB32); BLImageInfo info{}; scribble(fill); BLResult x = dec.read_info(info, e.p, e.n); size_t base = o.v.size(); o.v.push_back(x); if (x == BL_SUCCESS) { VH_CHECK(info.size.w > 0 && info.size.h > 0, "empty-info", "%s: read_info succeeds with %dx%d", d, info.size.w, info.size.h); o.v.push_back(uint64_t(info.size.w) << 32 | uint32_t(info.size.h)); o.v.push_back(info.depth); o.v.push_back(info.flags); o.v.push_back(info.frame_count); }
    for (int fr = 0; fr < 5; fr++) { scribble(fill); x = dec.read_frame(im, e.p, e.n); o.v.push_back(x); if (x == BL_SUCCESS) { VH_CHECK(im.width() == info.size.w && im.height() == info.size.h, "announced-size", "%s: image is %dx%d, announced %dx%d", d, im.width(), im.height(), info.size.w, info.size.h); o.v.push_back(hash_image(im)); count("decoded"); } else { usable(im, d); count("failed reads"); break; } }
    if (round == 1) { std::vector<uint64_t> a(o.v.begin(), o.v.begin() + base), b(o.v.begin() + base, o.v.end()); VH_CHECK(a == b, "restart-differs", "%s: decoding again after a restart gives another result (%llu values against %llu)", d, (unsigned long long)a.size(), (unsigned long long)b.size()); } else VH_OK(dec.restart(), "restart"); }
  return o;
}
static Bytes any_file(Rng& r, const char*& codec, std::string& d) {
  switch (r.below(6)) { case 0: case 1: { Png p = make_png(r, 40, r.chance(1, 3)); codec = "PNG"; d = p.desc; return p.file; } case 2: { Simple s = make_bmp(r, 40); codec = "BMP"; d = s.desc; return s.file; } case 3: { Simple s = make_qoi(r, 30); codec = "QOI"; d = s.desc; return s.file; } default: { Jpeg j = make_jpeg(r, 40); codec = "JPEG"; d = j.desc; return j.file; } }
}
static uint32_t edge32(Rng& r) { static const uint32_t e[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 255, 256, 257, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 16385, 65534, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFF0u, 0x3FFFFFFF, 0x40000000}; return r.chance(3, 4) ? r.pick(e) : r.u32(); }
static void mutate(Rng& r, Bytes& f, std::string& d, const char* codec) {
  int n = 1 + int(r.below(5)); for (int i = 0; i < n && f.size() > 4; i++) { size_t pos = r.chance(1, 3) ? r.below(std::min<size_t>(f.size(), 64)) : r.below(f.size()); char b[60]; int k = int(r.below(12));
    switch (k) { case 0: case 1: f[pos] ^= uint8_t(1u << r.below(8)); break; case 2: f[pos] = uint8_t(r.chance(1, 2) ? 255 : r.u32()); break; case 3: f.resize(pos + 1); break; case 4: { size_t m = std::min<size_t>(f.size() - pos, 1 + r.skew(100)); f.erase(f.begin() + pos, f.begin() + pos + m); break; } case 5: { size_t m = std::min<size_t>(f.size() - pos, 1 + r.skew(100)); Bytes c(f.begin() + pos, f.begin() + pos + m); f.insert(f.begin() + r.below(f.size()), c.begin(), c.end()); break; } case 6: { uint32_t v = edge32(r); for (size_t q = 0; q < 4 && pos + q < f.size(); q++) f[pos + q] = uint8_t(v >> (24 - 8 * q)); break; } case 7: { uint32_t v = edge32(r); for (size_t q = 0; q < 4 && pos + q < f.size(); q++) f[pos + q] = uint8_t(v >> (8 * q)); break; } case 8: { uint32_t v = edge32(r); for (size_t q = 0; q < 2 && pos + q < f.size(); q++) f[pos + q] = uint8_t(v >> (8 - 8 * q)); break; }
      case 9: { size_t m = std::min<size_t>(f.size() - pos, 1 + r.skew(60)); uint8_t v = uint8_t(r.chance(1, 2) ? 0 : r.chance(1, 2) ? 255 : r.u32()); std::fill(f.begin() + pos, f.begin() + pos + m, v); break; } case 10: { // Structured: a header field of the format.
        if (codec[0] == 'P') { static const uint8_t o[] = {16, 20, 24, 25, 28}; size_t q = r.pick(o); if (q < 24 && f.size() > q + 4) { uint32_t v = edge32(r); f[q] = v >> 24; f[q + 1] = v >> 16; f[q + 2] = v >> 8; f[q + 3] = v; } else if (f.size() > q) f[q] = uint8_t(r.below(9)); }
        else if (codec[0] == 'B' && f.size() > 60 && (f[30] == 1 || f[30] == 2) && r.chance(3, 4)) { // RLE commands, also those that end exactly at the edges of the image.
          size_t off = f[10] | f[11] << 8; if (off + 2 < f.size()) { size_t at = off + 2 * r.below((f.size() - off) / 2); int w = f[18] | f[19] << 8, h = f[22] | f[23] << 8; if (h > 0x7FFF) h = 0x10000 - h; Bytes c; int kind = int(r.below(4)); auto near = [&](int v) { return uint8_t(r.chance(1, 2) ? v - 1 + int(r.below(3)) : int(r.below(unsigned(v) + 2))); };
            if (kind == 0) c = {0, 2, near(w), near(h)}; else if (kind == 1) { c = {near(w), uint8_t(r.u32()), 0, 2, near(0), near(h)}; } else if (kind == 2) c = {0, near(w)}; else c = {near(w), uint8_t(r.u32()), 0, uint8_t(r.below(3))};
            if (r.chance(1, 2)) { at = off; } if (r.chance(1, 2)) f.insert(f.begin() + at, c.begin(), c.end()); else for (size_t q = 0; q < c.size() && at + q < f.size(); q++) f[at + q] = c[q]; } }
        else if (codec[0] == 'B') { static const uint8_t o[] = {10, 14, 18, 22, 28, 30, 34, 46, 54, 58, 62, 66}; size_t q = r.pick(o); uint32_t v = edge32(r); if (f.size() > q + 4) { f[q] = v; f[q + 1] = v >> 8; if (q != 28) { f[q + 2] = v >> 16; f[q + 3] = v >> 24; } } }
        else if (codec[0] == 'Q') { size_t q = 4 + 4 * r.below(2); uint32_t v = edge32(r); if (f.size() > q + 4) { f[q] = v >> 24; f[q + 1] = v >> 16; f[q + 2] = v >> 8; f[q + 3] = v; } }
        else { for (size_t q = 2; q + 12 < f.size(); q++) if (f[q] == 255 && f[q + 1] >= 0xC0 && f[q + 1] <= 0xDD && f[q + 1] != 0xC4) { if (r.chance(1, 2)) continue; size_t off = q + 4 + r.below(12); if (off < f.size()) f[off] = uint8_t(r.chance(1, 2) ? edge32(r) : 0x11 * (1 + r.below(4))); break; } } break; }
      default: { // Shuffle or duplicate a whole marker/chunk region.
        if (codec[0] == 'J') { std::vector<size_t> mk; for (size_t q = 2; q + 4 < f.size(); q++) if (f[q] == 255 && f[q + 1] >= 0xC0 && f[q + 1] != 255) mk.push_back(q); if (mk.size() > 1) { size_t a = r.below(mk.size() - 1); Bytes c(f.begin() + mk[a], f.begin() + mk[a + 1]); if (r.chance(1, 2)) f.erase(f.begin() + mk[a], f.begin() + mk[a + 1]); else { size_t at = r.pick(mk); if (at <= f.size()) f.insert(f.begin() + at, c.begin(), c.end()); } } }
        else if (codec[0] == 'P') { std::vector<std::pair<size_t, size_t>> ck; for (size_t q = 8; q + 12 <= f.size();) { uint32_t m = f[q] << 24 | f[q + 1] << 16 | f[q + 2] << 8 | f[q + 3]; if (m > f.size() || q + 12 + m > f.size()) break; ck.push_back({q, 12 + m}); q += 12 + m; } if (ck.size() > 1) { auto a = r.pick(ck); Bytes c(f.begin() + a.first, f.begin() + a.first + a.second); if (r.chance(1, 2)) f.erase(f.begin() + a.first, f.begin() + a.first + a.second); else { auto b2 = r.pick(ck); f.insert(f.begin() + b2.first, c.begin(), c.end()); } } }
        else f[pos] ^= 0x40; } }
    snprintf(b, sizeof b, " m%d@%zu", k, pos); d += b; }
}
static Bytes hostile_png(Rng& r, std::string& d) { // Huge dimensions whose products wrap around, with little data.
  static const uint32_t ws[] = {16385, 65534, 65535, 32769, 0x10001, 0x7FFFFFFF, 0x40000001, 0x20000000, 8193, 46341}; Bytes f; static const uint8_t sig[] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; f.assign(sig, sig + 8); uint32_t w = r.chance(1, 2) ? r.pick(ws) : edge32(r), h = r.chance(1, 2) ? r.pick(ws) : edge32(r); static const int cts[] = {0, 2, 3, 4, 6}, scs[] = {1, 3, 1, 2, 4}; int k = int(r.below(5)), depth = r.chance(1, 3) && (k == 0 || k == 2) ? 1 << r.below(4) : 8; bool inter = r.chance(1, 4);
  Bytes ih; put32b(ih, w); put32b(ih, h); ih.push_back(depth); ih.push_back(cts[k]); ih.push_back(0); ih.push_back(0); ih.push_back(inter); chunk(f, "IHDR", ih); if (cts[k] == 3) chunk(f, "PLTE", Bytes(6, 9)); uint32_t bpl = (w * uint32_t(scs[k] * depth) + 7) / 8 + 1; uint32_t need = bpl * h; if (need > 4000000) need = uint32_t(r.below(4000)); Bytes raw(need, uint8_t(r.below(5))); chunk(f, "IDAT", zpack(r, raw, false)); chunk(f, "IEND", Bytes()); char b[80]; snprintf(b, sizeof b, "hostile PNG %ux%u ct%d depth%d data%u", w, h, cts[k], depth, need); d = b; return f;
}
static void case_hostile(Rng& r) {
  const char* codec = ""; std::string d; Bytes f; if (r.chance(1, 30)) { f = hostile_png(r, d); codec = "PNG"; } else { f = any_file(r, codec, d); if (r.chance(1, 25)) { f.resize(std::min<size_t>(f.size(), r.below(64))); d += " short"; } else if (r.chance(19, 20)) mutate(r, f, d, codec); }
  distinct(hash_bytes(f.data(), f.size())); sample("%s (%zu bytes)", d.c_str(), f.size()); if (st().verbose) { printf("%s\n", d.c_str()); FILE* o = fopen("/tmp/vhcase.img", "wb"); if (o) { fwrite(f.data(), 1, f.size(), o); fclose(o); } }
  bool preset = r.chance(1, 2); Outcome a = flow(f, codec, d.c_str(), 0x00, preset), b = flow(f, codec, d.c_str(), 0xA5, preset), c = flow(f, codec, d.c_str(), uint8_t(1 + r.below(255)), preset); if (!(a == b) || !(a == c)) { size_t i = 0; const Outcome& z = a == b ? c : b; while (i < a.v.size() && i < z.v.size() && a.v[i] == z.v[i]) i++; fail("memory-dependent", "%s: the result depends on unrelated memory (value %zu of %zu/%zu)", d.c_str(), i, a.v.size(), z.v.size()); }
  g_fill = 0xA5; count("files"); count(codec);
  // Growing input: information from a prefix, pixels from the whole.
  { BLImageDecoder dec; VH_OK(codec_of(codec).create_decoder(&dec), "create-decoder"); BLImage im; BLImageInfo info{}; size_t n = 0; BLResult x = BL_ERROR_DATA_TRUNCATED; int steps = 0; std::vector<uint64_t> v; while (n < f.size() && steps++ < 40) { n = std::min(f.size(), n + 1 + r.skew(n < 64 ? 12 : 200)); if (steps == 40) n = f.size(); Exact e(f, n); x = dec.read_info(info, e.p, e.n); if (x == BL_SUCCESS) break; if (n < f.size()) dec.restart(); }
    Exact e(f, f.size()); v.push_back(x); bool ok = x == BL_SUCCESS; if (ok) { v.push_back(uint64_t(info.size.w) << 32 | uint32_t(info.size.h)); BLResult y = dec.read_frame(im, e.p, e.n); v.push_back(y); if (y == BL_SUCCESS) v.push_back(hash_image(im)); }
    static const char actl[] = "acTL"; bool apng = std::search(f.begin(), f.end(), actl, actl + 4) != f.end(); // Whether a PNG is animated is only known if acTL was part of the data given to read_info().
    if (f.size() && a.v.size() >= 6 && a.v[0] == BL_SUCCESS && ok && apng) count("chunked animations"); else if (f.size() && a.v.size() >= 6 && a.v[0] == BL_SUCCESS && ok) { VH_CHECK(v[1] == a.v[1] && v[2] == a.v[5] && (v[2] != BL_SUCCESS || v[3] == a.v[6]), "chunked-differs", "%s: feeding the data in chunks changes the result (%u/%u)", d.c_str(), unsigned(v[2]), unsigned(a.v[5])); count("chunked"); } else VH_CHECK((a.v[0] == BL_SUCCESS) == ok, "chunked-differs", "%s: info from chunks %u, whole %u", d.c_str(), unsigned(x), unsigned(a.v[0])); }
  { Exact e(f, f.size()); BLImageCodec cc; cc.find_by_data(e.p, e.n); BLImage im; im.create(3, 3, BL_FORMAT_A8); BLResult x = im.read_from_data(e.p, e.n); if (x != BL_SUCCESS) usable(im, d.c_str()); else count("auto-detected"); }
}
void vh_init() { init_cos(); }
void vh_case(uint64_t, Rng& r) { g_fill = 0xA5; const std::string& m = st().mode; if (m == "P14") case_encode(r); else if (m == "P15") case_png(r); else if (m == "P16") case_simple(r); else if (m == "P17") case_jpeg(r); else case_hostile(r); }
void vh_finish() {}
