// Builds small sfnt fonts (TrueType and CFF outlines) together with what they mean, independently of the library.
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

namespace fg {
using vh::Rng;

struct Buf {
  std::vector<uint8_t> d;
  size_t size() const { return d.size(); }
  void u8(uint32_t v) { d.push_back(uint8_t(v)); }
  void u16(uint32_t v) { u8(v >> 8); u8(v); }
  void u32(uint32_t v) { u16(v >> 16); u16(v); }
  void put(const Buf& o) { d.insert(d.end(), o.d.begin(), o.d.end()); }
  void set16(size_t at, uint32_t v) { d[at] = uint8_t(v >> 8); d[at + 1] = uint8_t(v); }
  void set32(size_t at, uint32_t v) { set16(at, v >> 16); set16(at + 2, v); }
  void pad(size_t n) { while (d.size() % n) d.push_back(0); }
};

struct Pt { double x, y; };
// One outline segment: n == 1 line, 2 quadratic, 3 cubic; the start is the end of the previous one.
struct Seg { int n; Pt p[3]; };
struct Contour { Pt start; std::vector<Seg> segs; };
typedef std::vector<Contour> Outline;

struct TTPoint { int x, y; bool on; };
struct Component { int gid = 0, dx = 0, dy = 0, mode = 0; int m[4] = {16384, 0, 0, 16384}; bool words = false, scaled_offset = false, unscaled_offset = false; };

struct Glyph {
  int kind = 0;                              // 0 empty, 1 simple, 2 composite, 3 header with no contours
  std::vector<std::vector<TTPoint>> tt;
  std::vector<Component> comps;
  int bbox[4] = {0, 0, 0, 0};                // x_min, y_min, x_max, y_max
  Buf cff;                                   // Type 2 charstring
  Outline cff_outline;
};

struct CMapSub { int platform, encoding, format; std::map<uint32_t, uint32_t> map; uint32_t lead = 0; };
struct NameRec { int id; std::string text; bool win = true; int lang = 0x409; std::vector<uint16_t> wide; }; // `wide` replaces `text` in Windows records.

struct Font {
  uint32_t upem = 1000;
  bool is_cff = false;
  bool loca32 = false;
  int glyph_count = 1;
  std::vector<Glyph> glyphs;
  std::vector<int> advance, lsb;
  int long_metrics = 1;
  std::vector<CMapSub> cmaps;
  int head_bbox[4] = {-100, -200, 900, 800};
  int asc = 800, desc = -200, gap = 90, typo_asc = 750, typo_desc = -250, typo_gap = 60, xheight = 500, capheight = 700;
  int underline_pos = -100, underline_th = 50, strike_pos = 250, strike_th = 40;
  bool use_typo = false, with_os2 = true, with_post = true, with_kern = false;
  int os2_version = 4;
  uint32_t weight = 400, stretch = 5, style = 0; // style: 0 normal, 1 oblique, 2 italic
  std::vector<NameRec> names;
  std::vector<Buf> gsubrs, lsubrs;
  std::vector<std::pair<std::string, Buf>> extra;

  const CMapSub* best_cmap() const;
  std::vector<uint8_t> build(Rng& r) const;
};

static Buf simple_glyph(Rng& r, const Glyph& g) {
  Buf b;
  b.u16(uint32_t(g.tt.size()));
  for (int i = 0; i < 4; i++) b.u16(uint32_t(g.bbox[i]));
  uint32_t end = 0;
  std::vector<TTPoint> all;
  for (auto& c : g.tt) { end += uint32_t(c.size()); b.u16(end - 1); for (auto& p : c) all.push_back(p); }
  uint32_t instr = r.chance(1, 3) ? r.below(20) : 0;
  b.u16(instr);
  for (uint32_t i = 0; i < instr; i++) b.u8(r.u32());
  // Flags.
  std::vector<uint8_t> fl; Buf xs, ys; int px = 0, py = 0;
  uint32_t style = r.below(4);
  for (size_t i = 0; i < all.size(); i++) {
    int dx = all[i].x - px, dy = all[i].y - py; px = all[i].x; py = all[i].y;
    uint32_t f = all[i].on ? 1 : 0;
    auto axis = [&](int d, uint32_t byte_flag, uint32_t same_flag, Buf& out) {
      bool short_ok = d >= -255 && d <= 255;
      uint32_t how = style == 0 ? 0 : style == 1 ? 1 : r.below(3);
      if (d == 0 && how != 1 && !r.chance(1, 6)) { f |= same_flag; return; }
      if (short_ok && (how != 1 || style != 1)) { f |= byte_flag; if (d > 0 || (d == 0 && r.chance(1, 2))) f |= same_flag; out.u8(uint32_t(d < 0 ? -d : d)); return; }
      out.u16(uint32_t(d));
    };
    axis(dx, 2, 16, xs); axis(dy, 4, 32, ys);
    if (i == 0 && r.chance(1, 4)) f |= 0x40;
    fl.push_back(uint8_t(f));
  }
  uint32_t rep = r.below(3);
  for (size_t i = 0; i < fl.size();) {
    size_t n = 1; while (i + n < fl.size() && fl[i + n] == fl[i] && n < 256) n++;
    if ((n > 1 && rep && (rep == 1 || r.chance(1, 2))) || (rep == 2 && r.chance(1, 12))) {
      size_t use = rep == 1 ? n : 1 + r.below(uint32_t(n));
      b.u8(fl[i] | 8u); b.u8(uint32_t(use - 1)); i += use;
    } else { b.u8(fl[i]); i++; }
  }
  b.put(xs); b.put(ys);
  return b;
}

static Buf composite_glyph(Rng& r, const Glyph& g) {
  Buf b;
  b.u16(0xFFFF);
  for (int i = 0; i < 4; i++) b.u16(uint32_t(g.bbox[i]));
  bool instr = r.chance(1, 4);
  for (size_t i = 0; i < g.comps.size(); i++) {
    const Component& c = g.comps[i];
    uint32_t f = 2;
    if (c.words) f |= 1;
    if (r.chance(1, 3)) f |= 4;
    if (c.mode == 1) f |= 8;
    if (c.mode == 2) f |= 0x40;
    if (c.mode == 3) f |= 0x80;
    if (i + 1 < g.comps.size()) f |= 0x20;
    else if (instr) f |= 0x100;
    if (c.scaled_offset) f |= 0x800;
    if (c.unscaled_offset) f |= 0x1000;
    if (r.chance(1, 4)) f |= 0x200;
    b.u16(f); b.u16(uint32_t(c.gid));
    if (c.words) { b.u16(uint32_t(c.dx)); b.u16(uint32_t(c.dy)); } else { b.u8(uint32_t(c.dx)); b.u8(uint32_t(c.dy)); }
    if (c.mode == 1) b.u16(uint32_t(c.m[0]));
    if (c.mode == 2) { b.u16(uint32_t(c.m[0])); b.u16(uint32_t(c.m[3])); }
    if (c.mode == 3) for (int k = 0; k < 4; k++) b.u16(uint32_t(c.m[k]));
  }
  if (instr) { uint32_t n = r.below(8); b.u16(n); for (uint32_t i = 0; i < n; i++) b.u8(r.u32()); }
  return b;
}

// TrueType semantics: the implied on-curve points of consecutive off-curve points.
static Outline tt_outline(const std::vector<std::vector<TTPoint>>& tt) {
  Outline o;
  for (auto& c : tt) {
    if (c.size() < 2) continue;
    size_t n = c.size(), s = 0;
    while (s < n && !c[s].on) s++;
    Contour k;
    std::vector<TTPoint> rot;
    auto P = [&](const TTPoint& p) { return Pt{double(p.x), double(p.y)}; };
    auto mid = [&](Pt a, Pt b) { return Pt{(a.x + b.x) / 2, (a.y + b.y) / 2}; };
    if (s < n) { k.start = P(c[s]); for (size_t i = 1; i <= n; i++) rot.push_back(c[(s + i) % n]); }
    else { k.start = mid(P(c[n - 1]), P(c[0])); for (size_t i = 0; i < n; i++) rot.push_back(c[i]); }
    bool have = false; Pt ctl{0, 0};
    for (auto& p : rot) {
      if (p.on) { if (have) k.segs.push_back(Seg{2, {ctl, P(p), {0, 0}}}); else k.segs.push_back(Seg{1, {P(p), {0, 0}, {0, 0}}}); have = false; }
      else { if (have) k.segs.push_back(Seg{2, {ctl, mid(ctl, P(p)), {0, 0}}}); ctl = P(p); have = true; }
    }
    if (have) k.segs.push_back(Seg{2, {ctl, k.start, {0, 0}}});
    o.push_back(k);
  }
  return o;
}

static void outline_of(const Font& f, int gid, Outline& out, int depth = 0) {
  const Glyph& g = f.glyphs[size_t(gid)];
  if (f.is_cff) { out = g.cff_outline; return; }
  if (g.kind == 1) { Outline o = tt_outline(g.tt); out.insert(out.end(), o.begin(), o.end()); }
  if (g.kind == 2) {
    for (auto& c : g.comps) {
      Outline sub; outline_of(f, c.gid, sub, depth + 1);
      double m[4] = {1, 0, 0, 1}, dx = c.dx, dy = c.dy;
      if (c.mode == 1) m[0] = m[3] = c.m[0] / 16384.0;
      if (c.mode == 2) { m[0] = c.m[0] / 16384.0; m[3] = c.m[3] / 16384.0; }
      if (c.mode == 3) for (int k = 0; k < 4; k++) m[k] = c.m[k] / 16384.0;
      if (c.scaled_offset && !c.unscaled_offset && c.mode) { dx *= sqrt(m[0] * m[0] + m[1] * m[1]); dy *= sqrt(m[2] * m[2] + m[3] * m[3]); }
      auto T = [&](Pt& p) { Pt q{p.x * m[0] + p.y * m[2] + dx, p.x * m[1] + p.y * m[3] + dy}; p = q; };
      for (auto& k : sub) { T(k.start); for (auto& s : k.segs) for (int i = 0; i < s.n; i++) T(s.p[i]); out.push_back(k); }
    }
  }
}

static Buf cmap_sub(Rng& r, CMapSub& c) {
  Buf b;
  auto& m = c.map;
  if (c.format == 0) {
    b.u16(0); b.u16(262); b.u16(0);
    for (uint32_t i = 0; i < 256; i++) { auto it = m.find(i); b.u8(it == m.end() ? 0 : it->second); }
    return b;
  }
  if (c.format == 6 || c.format == 10) {
    uint32_t lo = m.begin()->first, hi = m.rbegin()->first;
    uint32_t n = hi - lo + 1;
    if (c.format == 6) { b.u16(6); b.u16(10 + n * 2); b.u16(0); b.u16(lo); b.u16(n); }
    else { b.u16(10); b.u16(0); b.u32(20 + n * 2); b.u32(0); b.u32(lo); b.u32(n); }
    for (uint32_t i = lo; i <= hi; i++) { auto it = m.find(i); b.u16(it == m.end() ? 0 : it->second); if (i == 0xFFFFFFFFu) break; }
    return b;
  }
  if (c.format == 12 || c.format == 13) {
    struct G { uint32_t a, b, g; };
    std::vector<G> gs;
    for (auto& kv : m) {
      bool ext = !gs.empty() && gs.back().b + 1 == kv.first && (c.format == 12 ? gs.back().g + (kv.first - gs.back().a) == kv.second : gs.back().g == kv.second) && !r.chance(1, 8);
      if (ext) gs.back().b = kv.first; else gs.push_back(G{kv.first, kv.first, kv.second});
    }
    b.u16(uint32_t(c.format)); b.u16(0); b.u32(uint32_t(16 + gs.size() * 12)); b.u32(0); b.u32(uint32_t(gs.size()));
    for (auto& g : gs) { b.u32(g.a); b.u32(g.b); b.u32(g.g); }
    return b;
  }
  // Format 4: segments of consecutive characters, by delta when the glyphs are consecutive too, otherwise by array.
  struct S { uint32_t a, b; bool arr; std::vector<uint32_t> g; };
  std::vector<S> ss;
  for (auto& kv : m) {
    if (!ss.empty() && kv.first > ss.back().b && kv.first - ss.back().b <= (ss.back().arr ? 1 + r.below(3) : 1u) && !r.chance(1, 10)) {
      S& s = ss.back();
      bool cons = kv.first == s.b + 1 && kv.second == s.g.back() + 1;
      if (s.arr || cons) {
        for (uint32_t x = s.b + 1; x < kv.first; x++) s.g.push_back(0); // Unmapped characters inside of a segment.
        s.g.push_back(kv.second); s.b = kv.first; continue;
      }
    }
    ss.push_back(S{kv.first, kv.first, r.chance(1, 2), {kv.second}});
  }
  ss.push_back(S{0xFFFF, 0xFFFF, false, {}});
  uint32_t n = uint32_t(ss.size());
  uint32_t sr = 1, es = 0; while (sr * 2 <= n) { sr *= 2; es++; }
  b.u16(4); b.u16(0); b.u16(0); b.u16(n * 2); b.u16(sr * 2); b.u16(es); b.u16((n - sr) * 2);
  for (auto& s : ss) b.u16(s.b);
  b.u16(0);
  for (auto& s : ss) b.u16(s.a);
  std::vector<uint32_t> delta;
  for (auto& s : ss) {
    uint32_t d;
    if (s.g.empty()) d = 1;
    else if (!s.arr) d = s.g[0] - s.a;
    else d = r.chance(1, 2) ? 0 : r.u32();
    delta.push_back(d & 0xFFFF); b.u16(d);
  }
  Buf arr;
  for (uint32_t i = 0; i < n; i++) {
    S& s = ss[i];
    if (!s.arr || s.g.empty()) { b.u16(0); continue; }
    b.u16((n - i) * 2 + uint32_t(arr.size()));
    for (uint32_t g : s.g) arr.u16(g == 0 ? 0 : (g - delta[i]) & 0xFFFF);
    // A glyph whose array value would be zero can't be stored that way.
    for (size_t k = 0; k < s.g.size(); k++) if (s.g[k] != 0 && ((s.g[k] - delta[i]) & 0xFFFF) == 0) m.erase(s.a + uint32_t(k));
  }
  b.put(arr);
  b.set16(2, uint32_t(b.size()));
  return b;
}

// ---- CFF ----
static void cff_index(Buf& b, const std::vector<Buf>& items, Rng& r) {
  b.u16(uint32_t(items.size()));
  if (items.empty()) return;
  size_t total = 1; for (auto& i : items) total += i.size();
  int os = total < 256 ? 1 : total < 65536 ? 2 : 3;
  if (r.chance(1, 3)) os = std::min(4, os + 1 + int(r.below(2)));
  b.u8(uint32_t(os));
  uint32_t off = 1;
  auto wr = [&](uint32_t v) { for (int k = os - 1; k >= 0; k--) b.u8(v >> (k * 8)); };
  wr(off);
  for (auto& i : items) { off += uint32_t(i.size()); wr(off); }
  for (auto& i : items) b.put(i);
}
static void dict_int(Buf& b, int32_t v) { b.u8(29); b.u32(uint32_t(v)); }

static Buf build_cff(const Font& f, Rng& r) {
  Buf b;
  b.u8(1); b.u8(0); b.u8(4); b.u8(1 + r.below(4));
  Buf nm; for (char c : std::string("Gen")) nm.u8(uint32_t(c));
  cff_index(b, {nm}, r);
  Buf gs; cff_index(gs, f.gsubrs, r);
  Buf cs; { std::vector<Buf> v; for (auto& g : f.glyphs) v.push_back(g.cff); cff_index(cs, v, r); }
  Buf ls; cff_index(ls, f.lsubrs, r);
  Buf priv;
  dict_int(priv, 0); priv.u8(20);
  // Subrs offset is relative to the private dictionary.
  if (!f.lsubrs.empty()) { dict_int(priv, int(priv.size() + 6)); priv.u8(19); }
  // Top dictionary has fixed-size integers, so its size doesn't depend on the values.
  auto top = [&](int32_t cs_off, int32_t p_off) { Buf t; dict_int(t, cs_off); t.u8(17); dict_int(t, int32_t(priv.size())); dict_int(t, p_off); t.u8(18); return t; };
  Rng r2 = r;
  Buf probe; cff_index(probe, {top(0, 0)}, r2);
  Rng r3 = r;
  size_t base = b.size() + probe.size() + 2 /*string index*/ + gs.size();
  size_t cs_off = base, p_off = base + cs.size();
  cff_index(b, {top(int32_t(cs_off), int32_t(p_off))}, r3);
  b.u16(0);
  b.put(gs); b.put(cs); b.put(priv); if (!f.lsubrs.empty()) b.put(ls);
  return b;
}

inline const CMapSub* Font::best_cmap() const {
  const CMapSub* best = nullptr; uint32_t bs = 0;
  for (auto& c : cmaps) {
    uint32_t s = c.platform == 3 ? (c.encoding == 0 ? 2u : 0x20000u + uint32_t(c.encoding)) : c.platform == 0 ? 0x10000u + uint32_t(c.encoding) : 1u;
    if (s > bs) { bs = s; best = &c; }
  }
  return best;
}

inline std::vector<uint8_t> Font::build(Rng& r) const {
  std::vector<std::pair<std::string, Buf>> t;
  Buf head;
  head.u32(0x00010000); head.u32(0x00010000); head.u32(0); head.u32(0x5F0F3CF5); head.u16(1); head.u16(upem);
  for (int i = 0; i < 4; i++) head.u32(0);
  for (int i = 0; i < 4; i++) head.u16(uint32_t(head_bbox[i]));
  head.u16(0); head.u16(8); head.u16(2); head.u16(loca32 ? 1 : 0); head.u16(0);
  t.push_back({"head", head});
  Buf maxp; maxp.u32(is_cff ? 0x00005000 : 0x00010000); maxp.u16(uint32_t(glyph_count)); if (!is_cff) for (int i = 0; i < 13; i++) maxp.u16(i == 12 ? 16 : 100);
  t.push_back({"maxp", maxp});
  Buf hhea; hhea.u32(0x00010000); hhea.u16(uint32_t(asc)); hhea.u16(uint32_t(desc)); hhea.u16(uint32_t(gap)); hhea.u16(2000); for (int i = 0; i < 11; i++) hhea.u16(0); hhea.u16(0); hhea.u16(uint32_t(long_metrics));
  while (hhea.size() < 36) hhea.u16(0);
  hhea.d.resize(36); hhea.set16(34, uint32_t(long_metrics));
  t.push_back({"hhea", hhea});
  Buf hmtx; for (int i = 0; i < glyph_count; i++) { if (i < long_metrics) hmtx.u16(uint32_t(advance[size_t(i)])); hmtx.u16(uint32_t(lsb[size_t(i)])); }
  t.push_back({"hmtx", hmtx});
  if (with_os2) {
    Buf o; o.u16(uint32_t(os2_version)); o.u16(500); o.u16(weight); o.u16(stretch); o.u16(0);
    for (int i = 0; i < 8; i++) o.u16(0);
    o.u16(uint32_t(strike_th)); o.u16(uint32_t(strike_pos)); o.u16(0);
    for (int i = 0; i < 10; i++) o.u8(0);
    for (int i = 0; i < 4; i++) o.u32(0);
    o.u32(0x20202020); o.u16((style == 2 ? 1u : 0u) | (style == 1 ? 0x200u : 0u) | (use_typo ? 0x80u : 0u)); o.u16(32); o.u16(0xFFFF);
    o.u16(uint32_t(typo_asc)); o.u16(uint32_t(typo_desc)); o.u16(uint32_t(typo_gap)); o.u16(900); o.u16(300);
    if (os2_version >= 1) { o.u32(0); o.u32(0); }
    if (os2_version >= 2) { o.u16(uint32_t(xheight)); o.u16(uint32_t(capheight)); o.u16(0); o.u16(32); o.u16(3); }
    t.push_back({"OS/2", o});
  }
  if (with_post) { Buf p; p.u32(0x00030000); p.u32(0); p.u16(uint32_t(underline_pos)); p.u16(uint32_t(underline_th)); for (int i = 0; i < 5; i++) p.u32(0); t.push_back({"post", p}); }
  {
    Buf n, st; std::vector<NameRec> v = names;
    if (v.empty()) { v.push_back({1, "Gen"}); v.push_back({2, "Regular"}); v.push_back({4, "Gen Regular"}); v.push_back({6, "Gen-Regular"}); }
    n.u16(0); n.u16(uint32_t(v.size())); n.u16(uint32_t(6 + v.size() * 12));
    for (auto& e : v) {
      size_t at = st.size();
      if (e.win && !e.wide.empty()) for (uint16_t c : e.wide) st.u16(c); else if (e.win) for (char c : e.text) st.u16(uint8_t(c)); else for (char c : e.text) st.u8(uint8_t(c));
      n.u16(e.win ? 3 : 1); n.u16(e.win ? 1 : 0); n.u16(e.win ? uint32_t(e.lang) : 0); n.u16(uint32_t(e.id)); n.u16(uint32_t(st.size() - at)); n.u16(uint32_t(at));
    }
    n.put(st); t.push_back({"name", n});
  }
  if (!cmaps.empty()) {
    Buf c, subs; c.u16(0); c.u16(uint32_t(cmaps.size()));
    size_t base = 4 + cmaps.size() * 8;
    for (auto& s : cmaps) {
      c.u16(uint32_t(s.platform)); c.u16(uint32_t(s.encoding)); c.u32(uint32_t(base + subs.size()));
      subs.put(cmap_sub(r, const_cast<CMapSub&>(s))); if (r.chance(1, 2)) subs.pad(4);
    }
    c.put(subs); t.push_back({"cmap", c});
  }
  if (is_cff) t.push_back({"CFF ", build_cff(*this, r)});
  else {
    Buf glyf, loca; std::vector<uint32_t> offs;
    bool pad4 = r.chance(1, 2);
    for (size_t i = 0; i < glyphs.size(); i++) {
      const Glyph& g = glyphs[i];
      offs.push_back(uint32_t(glyf.size()));
      Buf b;
      if (g.kind == 1) b = simple_glyph(r, g);
      else if (g.kind == 2) b = composite_glyph(r, g);
      else if (g.kind == 3) { b.u16(0); for (int k = 0; k < 4; k++) b.u16(uint32_t(g.bbox[k])); }
      glyf.put(b);
      if (!loca32) glyf.pad(2); else if (pad4) glyf.pad(4);
    }
    offs.push_back(uint32_t(glyf.size()));
    if (glyf.size() == 0) glyf.u16(0);
    for (uint32_t o : offs) { if (loca32) loca.u32(o); else loca.u16(o / 2); }
    t.push_back({"glyf", glyf}); t.push_back({"loca", loca});
  }
  for (auto& e : extra) t.push_back(e);
  // The glyf table is placed anywhere, also last, so that reads past its end leave the file.
  for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[r.below(uint32_t(i))]);
  std::vector<size_t> order(t.size()); for (size_t i = 0; i < t.size(); i++) order[i] = i;
  std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return t[a].first < t[b].first; });
  std::vector<uint32_t> off(t.size()); Buf body; size_t base = 12 + t.size() * 16;
  for (size_t i = 0; i < t.size(); i++) { off[i] = uint32_t(base + body.size()); body.put(t[i].second); if (i + 1 < t.size()) body.pad(4); }
  Buf out; out.u32(is_cff ? 0x4F54544F : 0x00010000); out.u16(uint32_t(t.size()));
  uint32_t sr = 1, es = 0; while (sr * 2 <= t.size()) { sr *= 2; es++; }
  out.u16(sr * 16); out.u16(es); out.u16(uint32_t(t.size() * 16 - sr * 16));
  for (size_t i : order) { for (char c : t[i].first) out.u8(uint8_t(c)); out.u32(0); out.u32(off[i]); out.u32(uint32_t(t[i].second.size())); }
  out.put(body);
  return out.d;
}

} // fg
