// P21: shaping. Fonts with random substitution, positioning and kerning tables are shaped, and the glyphs, clusters and
// positions are compared with a model that follows the OpenType specification: lookups in the order of their index,
// every position takes the first subtable that matches it.
namespace p21 {
typedef std::array<int, 4> Val; typedef std::vector<uint32_t> Ids;
struct Sub {
  int type = 1, fmt = 1, delta = 0; std::map<uint32_t, uint32_t> single; std::map<uint32_t, Ids> multi; std::map<uint32_t, std::vector<std::pair<Ids, uint32_t>>> ligs; std::vector<std::set<uint32_t>> back, ahead;
  uint32_t vf1 = 0, vf2 = 0, n1 = 0, n2 = 0; std::map<uint32_t, Val> val; std::map<std::pair<uint32_t, uint32_t>, std::pair<Val, Val>> pairs; std::set<uint32_t> cov; std::map<uint32_t, uint32_t> c1, c2; std::vector<std::pair<Val, Val>> mat;
};
struct Lookup { int type; bool ext; std::vector<Sub> subs; };
struct Feature { const char* tag; std::vector<uint32_t> lookups; };
struct LangSys { int required = 0xFFFF; std::vector<uint32_t> features; };
struct Script { const char* tag; bool has_default; LangSys def; bool other; LangSys lang; };
struct Layout { bool gpos = false; std::vector<Lookup> lookups; std::vector<Feature> features; std::vector<Script> scripts; };
struct KernGroup { int format = 0; bool override_ = false, vertical = false; std::map<std::pair<uint32_t, uint32_t>, int> pairs; std::vector<std::pair<uint32_t, uint32_t>> order; uint32_t lf = 0, ln = 0, rf = 0, rn = 0, lc = 1, rc = 1; std::vector<uint32_t> lcls, rcls; std::vector<int> m; };
struct G { uint32_t id, cluster; };
struct P { int px = 0, py = 0, ax = 0, ay = 0; };

static void coverage(Rng& r, fg::Buf& b, const std::vector<uint32_t>& g) {
  if (r.chance(1, 2)) { b.u16(1); b.u16(uint32_t(g.size())); for (uint32_t v : g) b.u16(v); return; }
  std::vector<std::array<uint32_t, 3>> rg; for (size_t i = 0; i < g.size(); i++) if (!rg.empty() && rg.back()[1] + 1 == g[i] && !r.chance(1, 6)) rg.back()[1]++; else rg.push_back({g[i], g[i], uint32_t(i)});
  b.u16(2); b.u16(uint32_t(rg.size())); for (auto& q : rg) { b.u16(q[0]); b.u16(q[1]); b.u16(q[2]); }
}
static void class_def(Rng& r, fg::Buf& b, const std::map<uint32_t, uint32_t>& c) {
  if (c.empty() || r.chance(1, 2)) { std::vector<std::array<uint32_t, 3>> rg; for (auto& q : c) if (!rg.empty() && rg.back()[1] + 1 == q.first && rg.back()[2] == q.second) rg.back()[1]++; else rg.push_back({q.first, q.first, q.second}); b.u16(2); b.u16(uint32_t(rg.size())); for (auto& q : rg) { b.u16(q[0]); b.u16(q[1]); b.u16(q[2]); } return; }
  uint32_t a = c.begin()->first, z = c.rbegin()->first; b.u16(1); b.u16(a); b.u16(z - a + 1); for (uint32_t i = a; i <= z; i++) { auto it = c.find(i); b.u16(it == c.end() ? 0 : it->second); }
}
static void value(fg::Buf& b, uint32_t vf, const Val& v) { for (int k = 0; k < 4; k++) if (vf >> k & 1) b.u16(uint32_t(v[size_t(k)])); for (int k = 4; k < 8; k++) if (vf >> k & 1) b.u16(0); }
template<class M> static std::vector<uint32_t> keys(const M& m) { std::vector<uint32_t> v; for (auto& q : m) v.push_back(q.first); return v; }
static fg::Buf encode(Rng& r, const Sub& s, bool gpos) {
  fg::Buf b; b.u16(uint32_t(s.fmt)); std::vector<uint32_t> cov; size_t co = 2;
  auto put_cov = [&](size_t at, const std::vector<uint32_t>& g) { b.set16(at, uint32_t(b.size())); coverage(r, b, g); };
  if (!gpos) switch (s.type) {
    case 1: b.u16(0); cov = keys(s.single); if (s.fmt == 1) b.u16(uint32_t(s.delta)); else { b.u16(uint32_t(cov.size())); for (auto& q : s.single) b.u16(q.second); } put_cov(co, cov); break;
    case 2: case 3: { b.u16(0); cov = keys(s.multi); b.u16(uint32_t(cov.size())); std::vector<size_t> o; for (size_t i = 0; i < cov.size(); i++) { o.push_back(b.size()); b.u16(0); } bool first = r.chance(1, 2); if (first) put_cov(co, cov); size_t k = 0; for (auto& q : s.multi) { b.set16(o[k++], uint32_t(b.size())); b.u16(uint32_t(q.second.size())); for (uint32_t g : q.second) b.u16(g); } if (!first) put_cov(co, cov); break; }
    case 4: { b.u16(0); cov = keys(s.ligs); b.u16(uint32_t(cov.size())); std::vector<size_t> o; for (size_t i = 0; i < cov.size(); i++) { o.push_back(b.size()); b.u16(0); } bool first = r.chance(1, 2); if (first) put_cov(co, cov); size_t k = 0;
      for (auto& q : s.ligs) { size_t base = b.size(); b.set16(o[k++], uint32_t(base)); b.u16(uint32_t(q.second.size())); size_t lo = b.size(); for (size_t i = 0; i < q.second.size(); i++) b.u16(0); for (size_t i = 0; i < q.second.size(); i++) { b.set16(lo + 2 * i, uint32_t(b.size() - base)); b.u16(q.second[i].second); b.u16(uint32_t(q.second[i].first.size())); for (size_t j = 1; j < q.second[i].first.size(); j++) b.u16(q.second[i].first[j]); } }
      if (!first) put_cov(co, cov); break; }
    case 5: b.d.clear(); b.u16(3); b.u16(1); b.u16(0); b.u16(8); coverage(r, b, std::vector<uint32_t>(s.cov.begin(), s.cov.end())); break; // no actions
    case 6: b.d.clear(); b.u16(3); b.u16(0); b.u16(1); b.u16(12); b.u16(0); b.u16(0); coverage(r, b, std::vector<uint32_t>(s.cov.begin(), s.cov.end())); break;
    case 8: { b.u16(0); std::vector<size_t> ob, oa; b.u16(uint32_t(s.back.size())); for (size_t i = 0; i < s.back.size(); i++) { ob.push_back(b.size()); b.u16(0); } b.u16(uint32_t(s.ahead.size())); for (size_t i = 0; i < s.ahead.size(); i++) { oa.push_back(b.size()); b.u16(0); } cov = keys(s.single); b.u16(uint32_t(cov.size())); for (auto& q : s.single) b.u16(q.second); put_cov(co, cov);
      for (size_t i = 0; i < ob.size(); i++) put_cov(ob[i], std::vector<uint32_t>(s.back[i].begin(), s.back[i].end())); for (size_t i = 0; i < oa.size(); i++) put_cov(oa[i], std::vector<uint32_t>(s.ahead[i].begin(), s.ahead[i].end())); break; }
  }
  else switch (s.type) {
    case 1: b.u16(0); b.u16(s.vf1); cov = keys(s.val); if (s.fmt == 1) value(b, s.vf1, s.val.begin()->second); else { b.u16(uint32_t(cov.size())); for (auto& q : s.val) value(b, s.vf1, q.second); } put_cov(co, cov); break;
    case 2: b.u16(0); b.u16(s.vf1); b.u16(s.vf2);
      if (s.fmt == 1) { std::map<uint32_t, std::vector<uint32_t>> sets; for (auto& q : s.pairs) sets[q.first.first].push_back(q.first.second); cov = keys(sets); b.u16(uint32_t(cov.size())); std::vector<size_t> o; for (size_t i = 0; i < cov.size(); i++) { o.push_back(b.size()); b.u16(0); } bool first = r.chance(1, 2); if (first) put_cov(co, cov); size_t k = 0; for (auto& q : sets) { b.set16(o[k++], uint32_t(b.size())); b.u16(uint32_t(q.second.size())); for (uint32_t g : q.second) { b.u16(g); auto& v = s.pairs.at({q.first, g}); value(b, s.vf1, v.first); value(b, s.vf2, v.second); } } if (!first) put_cov(co, cov); }
      else { size_t o = b.size(); b.u16(0); b.u16(0); b.u16(s.n1); b.u16(s.n2); for (auto& v : s.mat) { value(b, s.vf1, v.first); value(b, s.vf2, v.second); } put_cov(co, std::vector<uint32_t>(s.cov.begin(), s.cov.end())); b.set16(o, uint32_t(b.size())); class_def(r, b, s.c1); b.set16(o + 2, uint32_t(b.size())); class_def(r, b, s.c2); }
      break;
    default: b.d.clear(); b.u16(3); b.u16(1); b.u16(0); b.u16(8); coverage(r, b, std::vector<uint32_t>(s.cov.begin(), s.cov.end())); break;
  }
  return b;
}
static fg::Buf encode(Rng& r, const Layout& l) {
  auto tag = [](fg::Buf& b, const char* t) { for (int i = 0; i < 4; i++) b.u8(uint8_t(t[i])); };
  fg::Buf b; b.u16(1); b.u16(0); for (int i = 0; i < 3; i++) b.u16(0);
  int order[3] = {0, 1, 2}; for (int i = 2; i > 0; i--) std::swap(order[i], order[r.below(uint32_t(i) + 1)]);
  for (int part : order) {
    size_t base = b.size(); b.set16(4 + 2 * size_t(part), uint32_t(base)); std::vector<size_t> at;
    if (part == 0) {
      b.u16(uint32_t(l.scripts.size())); for (auto& s : l.scripts) { tag(b, s.tag); at.push_back(b.size()); b.u16(0); }
      auto lang = [&](const LangSys& y) { b.u16(0); b.u16(uint32_t(y.required)); b.u16(uint32_t(y.features.size())); for (uint32_t f : y.features) b.u16(f); };
      for (size_t i = 0; i < l.scripts.size(); i++) { auto& s = l.scripts[i]; size_t sb = b.size(); b.set16(at[i], uint32_t(sb - base)); b.u16(0); b.u16(s.other); size_t lo = 0; if (s.other) { tag(b, "TRK "); lo = b.size(); b.u16(0); } if (s.has_default) { b.set16(sb, uint32_t(b.size() - sb)); lang(s.def); } if (s.other) { b.set16(lo, uint32_t(b.size() - sb)); lang(s.lang); } }
    }
    else if (part == 1) {
      b.u16(uint32_t(l.features.size())); for (auto& f : l.features) { tag(b, f.tag); at.push_back(b.size()); b.u16(0); }
      for (size_t i = 0; i < l.features.size(); i++) { b.set16(at[i], uint32_t(b.size() - base)); b.u16(0); b.u16(uint32_t(l.features[i].lookups.size())); for (uint32_t k : l.features[i].lookups) b.u16(k); }
    }
    else {
      b.u16(uint32_t(l.lookups.size())); for (size_t i = 0; i < l.lookups.size(); i++) { at.push_back(b.size()); b.u16(0); }
      for (size_t i = 0; i < l.lookups.size(); i++) { auto& k = l.lookups[i]; size_t lb = b.size(); b.set16(at[i], uint32_t(lb - base)); b.u16(k.ext ? l.gpos ? 9u : 7u : uint32_t(k.type)); b.u16(0); b.u16(uint32_t(k.subs.size())); std::vector<size_t> so; for (size_t j = 0; j < k.subs.size(); j++) { so.push_back(b.size()); b.u16(0); }
        if (k.ext) { std::vector<size_t> eo; for (size_t j = 0; j < k.subs.size(); j++) { b.set16(so[j], uint32_t(b.size() - lb)); eo.push_back(b.size()); b.u16(1); b.u16(uint32_t(k.type)); b.u32(0); } for (size_t j = 0; j < k.subs.size(); j++) { size_t off = b.size() - eo[j]; b.set16(eo[j] + 4, uint32_t(off >> 16)); b.set16(eo[j] + 6, uint32_t(off & 0xFFFF)); b.put(encode(r, k.subs[j], l.gpos)); } }
        else for (size_t j = 0; j < k.subs.size(); j++) { b.set16(so[j], uint32_t(b.size() - lb)); b.put(encode(r, k.subs[j], l.gpos)); } }
    }
  }
  return b;
}
// `half`: -1 all glyphs, else the glyphs of that parity, so that the subtables of a lookup don't depend on each other.
static Sub rnd_sub(Rng& r, bool gpos, int type, uint32_t gc, int half) {
  Sub s; s.type = type;
  auto gid = [&] { for (;;) { uint32_t g = 1 + uint32_t(r.below(r.chance(1, 2) ? std::min<uint32_t>(gc - 1, 12) : gc - 1)); if (half < 0 || int(g & 1) == half) return g; } };
  auto set = [&](int n) { std::set<uint32_t> q; for (int i = 0; i < n; i++) q.insert(gid()); if (r.chance(1, 4)) { uint32_t a = gid(); for (uint32_t g = a; g < gc && g < a + 8; g++) if (half < 0 || int(g & 1) == half) q.insert(g); } return q; };
  auto val = [&](uint32_t vf) { Val v; for (int k = 0; k < 4; k++) v[size_t(k)] = vf >> k & 1 ? int(r.chance(1, 10) ? r.range(-3000, 3000) : r.range(-200, 200)) : 0; return v; };
  auto fmt = [&] { uint32_t v = r.chance(1, 2) ? 4 : uint32_t(r.below(16)); if (r.chance(1, 8)) v |= uint32_t(r.below(16)) << 4; return v; };
  int n = 1 + int(r.below(8));
  if (!gpos) switch (type) {
    case 1: s.fmt = int(r.range(1, 2)); if (s.fmt == 1) { auto q = set(n); int lo = -int(*q.begin()), hi = int(gc) - 1 - int(*q.rbegin()); s.delta = int(r.range(lo, hi)); if (half >= 0) s.delta &= ~1; if (s.delta < lo) s.delta += 2; if (s.delta > hi) s.delta = 0; for (uint32_t g : q) s.single[g] = uint32_t(int(g) + s.delta); } else for (uint32_t g : set(n)) s.single[g] = gid(); break;
    case 2: case 3: for (uint32_t g : set(n)) { Ids v; int k = 1 + int(r.below(4)); for (int i = 0; i < k; i++) v.push_back(gid()); s.multi[g] = v; } break;
    case 4: for (uint32_t g : set(n)) { int k = 1 + int(r.below(4)); auto& v = s.ligs[g]; for (int i = 0; i < k; i++) { Ids c{g}; int m = 1 + int(r.below(r.chance(1, 3) ? 4 : 2)); for (int j = 0; j < m; j++) c.push_back(!v.empty() && r.chance(1, 2) && size_t(j) + 1 < v.back().first.size() ? v.back().first[size_t(j) + 1] : gid()); v.push_back({c, gid()}); } } break;
    case 8: s.fmt = 1; for (uint32_t g : set(n)) s.single[g] = gid(); { int a = int(r.below(3)), z = int(r.below(3)); for (int i = 0; i < a; i++) s.back.push_back(set(6)); for (int i = 0; i < z; i++) s.ahead.push_back(set(6)); } break;
    default: s.fmt = 3; s.cov = set(n); break;
  }
  else switch (type) {
    case 1: s.fmt = int(r.range(1, 2)); do s.vf1 = fmt(); while (!s.vf1); /* without values the lookup is rejected */ { Val one = val(s.vf1); for (uint32_t g : set(n)) s.val[g] = s.fmt == 1 ? one : val(s.vf1); } break;
    case 2: s.fmt = int(r.range(1, 2)); s.vf1 = fmt(); s.vf2 = r.chance(2, 3) ? 0 : fmt(); if (half >= 0 && s.fmt == 2) s.vf2 = 0;
      if (s.fmt == 1) for (uint32_t g : set(n)) for (uint32_t h : set(1 + int(r.below(6)))) s.pairs[{g, h}] = {val(s.vf1), val(s.vf2)};
      else { s.cov = set(n + 2); s.n1 = 1 + uint32_t(r.below(4)); s.n2 = 1 + uint32_t(r.below(5)); for (uint32_t g : s.cov) if (r.chance(2, 3)) { uint32_t c = uint32_t(r.below(s.n1)); if (c) s.c1[g] = c; } int save = half; half = -1; for (uint32_t g : set(12)) { uint32_t c = uint32_t(r.below(s.n2)); if (c) s.c2[g] = c; } half = save; for (uint32_t i = 0; i < s.n1 * s.n2; i++) s.mat.push_back({val(s.vf1), val(s.vf2)}); }
      break;
    default: s.fmt = 3; s.cov = set(n); break;
  }
  return s;
}
static Layout rnd_layout(Rng& r, bool gpos, uint32_t gc) {
  Layout l; l.gpos = gpos; int nl = r.chance(1, 12) ? int(r.range(30, 70)) : 1 + int(r.below(7)); static const int gs[] = {1, 2, 3, 4, 4, 8, 5, 6}, gp[] = {1, 2, 2, 2, 7};
  for (int i = 0; i < nl; i++) { Lookup k; k.type = gpos ? gp[r.below(5)] : gs[r.below(8)]; k.ext = r.chance(1, 4); bool two = r.chance(1, 4); int half = int(r.below(2)); for (int j = 0; j < (two ? 2 : 1); j++) k.subs.push_back(rnd_sub(r, gpos, k.type, gc, two ? (half + j) & 1 : -1)); l.lookups.push_back(k); }
  static const char* gst[] = {"calt", "ccmp", "clig", "dlig", "hlig", "liga", "rlig", "salt", "smcp", "ss01"}; static const char* gpt[] = {"kern", "kern", "ss01", "smcp"};
  std::vector<const char*> tags; int nf = 1 + int(r.below(gpos ? 3 : 6)); for (int i = 0; i < nf; i++) tags.push_back(gpos ? gpt[r.below(r.chance(1, 4) ? 4 : 2)] : gst[r.below(10)]); std::sort(tags.begin(), tags.end(), [](const char* a, const char* b) { return strcmp(a, b) < 0; });
  for (const char* t : tags) { Feature f; f.tag = t; int k = 1 + int(r.below(nl > 20 ? 20 : 4)); std::set<uint32_t> q; for (int i = 0; i < k; i++) q.insert(uint32_t(r.below(uint32_t(nl)))); f.lookups.assign(q.begin(), q.end()); l.features.push_back(f); }
  auto lang = [&] { LangSys y; if (r.chance(1, 6)) y.required = int(r.below(uint32_t(nf))); for (int i = 0; i < nf; i++) if (i != y.required && r.chance(4, 5)) y.features.push_back(uint32_t(i)); return y; };
  static const char* st_[] = {"DFLT", "cyrl", "grek", "latn"}; int mask = r.chance(2, 3) ? (r.chance(1, 2) ? 8 : 9) | int(r.below(16)) : 1 + int(r.below(15));
  for (int i = 0; i < 4; i++) if (mask >> i & 1) { Script s; s.tag = st_[i]; s.has_default = !r.chance(1, 12); s.def = lang(); s.other = !s.has_default || r.chance(1, 4); s.lang = lang(); l.scripts.push_back(s); }
  return l;
}
static bool on_by_default(const char* t) { for (const char* d : {"calt", "clig", "liga", "kern"}) if (!strcmp(t, d)) return true; return false; }
static std::set<uint32_t> plan(const Layout& l, const std::map<std::string, uint32_t>& set) {
  const Script* s = nullptr; for (auto& q : l.scripts) if (!strcmp(q.tag, "latn")) s = &q; if (!s) for (auto& q : l.scripts) if (!strcmp(q.tag, "DFLT")) s = &q;
  std::set<uint32_t> out; if (!s || !s->has_default) return out; auto add = [&](const Feature& f) { out.insert(f.lookups.begin(), f.lookups.end()); };
  if (s->def.required != 0xFFFF) add(l.features[size_t(s->def.required)]);
  for (uint32_t f : s->def.features) { auto it = set.find(l.features[f].tag); if (it == set.end() ? on_by_default(l.features[f].tag) : it->second != 0) add(l.features[f]); }
  return out;
}
static uint64_t g_hits[2][16];
static void gsub(std::vector<G>& v, const Lookup& l) {
  if (l.type == 5 || l.type == 6) return;
  if (l.type == 8) {
    for (size_t i = v.size(); i-- > 0;) for (auto& s : l.subs) { auto it = s.single.find(v[i].id); if (it == s.single.end() || i < s.back.size() || v.size() - i - 1 < s.ahead.size()) continue; bool ok = true; for (size_t k = 0; k < s.back.size(); k++) ok &= s.back[k].count(v[i - 1 - k].id) != 0; for (size_t k = 0; k < s.ahead.size(); k++) ok &= s.ahead[k].count(v[i + 1 + k].id) != 0; if (!ok) continue; v[i].id = it->second; g_hits[0][8]++; break; }
    return;
  }
  std::vector<G> o;
  for (size_t i = 0; i < v.size();) {
    bool hit = false;
    for (auto& s : l.subs) {
      if (l.type == 1) { auto it = s.single.find(v[i].id); if (it != s.single.end()) { o.push_back({it->second, v[i].cluster}); i++; hit = true; } }
      else if (l.type == 2 || l.type == 3) { auto it = s.multi.find(v[i].id); if (it != s.multi.end()) { for (size_t k = 0; k < (l.type == 2 ? it->second.size() : 1); k++) o.push_back({it->second[k], v[i].cluster}); i++; hit = true; } }
      else { auto it = s.ligs.find(v[i].id); if (it != s.ligs.end()) for (auto& q : it->second) { bool ok = v.size() - i >= q.first.size(); for (size_t k = 0; ok && k < q.first.size(); k++) ok = v[i + k].id == q.first[k]; if (ok) { o.push_back({q.second, v[i].cluster}); i += q.first.size(); hit = true; break; } } }
      if (hit) break;
    }
    if (hit) g_hits[0][l.type]++; else o.push_back(v[i++]);
  }
  v.swap(o);
}
static void add(P& p, const Val& v) { p.px += v[0]; p.py += v[1]; p.ax += v[2]; p.ay += v[3]; }
static void gpos(const std::vector<G>& v, std::vector<P>& p, const Lookup& l) {
  if (l.type == 1) for (size_t i = 0; i < v.size(); i++) for (auto& s : l.subs) { auto it = s.val.find(v[i].id); if (it != s.val.end()) { add(p[i], it->second); g_hits[1][1]++; break; } }
  if (l.type == 2) for (size_t i = 0; i + 1 < v.size();) {
    size_t step = 1;
    for (auto& s : l.subs) {
      const std::pair<Val, Val>* q = nullptr;
      if (s.fmt == 1) { auto it = s.pairs.find({v[i].id, v[i + 1].id}); if (it != s.pairs.end()) q = &it->second; }
      else if (s.cov.count(v[i].id)) { auto a = s.c1.find(v[i].id), z = s.c2.find(v[i + 1].id); q = &s.mat[(a == s.c1.end() ? 0 : a->second) * s.n2 + (z == s.c2.end() ? 0 : z->second)]; }
      if (q) { add(p[i], q->first); add(p[i + 1], q->second); if (s.vf2) step = 2; g_hits[1][s.fmt + 1]++; break; }
    }
    i += step;
  }
}
static bool kern_value(const KernGroup& k, uint32_t a, uint32_t b, int& v) {
  if (k.format == 0) { auto it = k.pairs.find({a, b}); if (it == k.pairs.end()) return false; v = it->second; return true; }
  if (k.format == 2) { if (a - k.lf >= k.ln || b - k.rf >= k.rn) return false; uint32_t x = k.lcls[a - k.lf], y = k.rcls[b - k.rf]; if (!y) return false; v = k.m[x * k.rc + y]; return true; }
  if (a >= k.lcls.size() || b >= k.rcls.size()) return false; v = k.m[k.lcls[a] * k.rc + k.rcls[b]]; return true;
}
static void kern(const std::vector<G>& v, std::vector<P>& p, const std::vector<KernGroup>& g) {
  for (size_t i = 0; i + 1 < v.size(); i++) { int sum = 0, q = 0; for (auto& k : g) if (!k.vertical && kern_value(k, v[i].id, v[i + 1].id, q)) { sum = k.override_ ? q : sum + q; g_hits[1][8 + k.format]++; } p[i].ax += sum; }
}
static fg::Buf rnd_kern(Rng& r, uint32_t gc, std::vector<KernGroup>& out) {
  bool mac = r.chance(1, 3); fg::Buf b; int n = 1 + int(r.below(3)); if (mac) { b.u32(0x00010000); b.u32(uint32_t(n)); } else { b.u16(0); b.u16(uint32_t(n)); }
  auto gid = [&] { return 1 + uint32_t(r.below(r.chance(1, 2) ? std::min<uint32_t>(gc - 1, 12) : gc - 1)); };
  for (int i = 0; i < n; i++) {
    KernGroup k; k.format = mac ? (r.chance(1, 2) ? 0 : r.chance(1, 2) ? 2 : 3) : r.chance(2, 3) ? 0 : 2; k.vertical = r.chance(1, 10); k.override_ = !mac && r.chance(1, 5); fg::Buf d; uint32_t hs = mac ? 8 : 6;
    auto kv = [&] { return int(r.chance(1, 10) ? r.range(-2000, 2000) : r.range(-150, 150)); };
    if (k.format == 0) {
      int np = r.chance(1, 5) ? int(r.range(40, 400)) : int(r.below(30)); for (int j = 0; j < np; j++) k.pairs[{gid(), gid()}] = kv(); for (auto& q : k.pairs) k.order.push_back(q.first);
      if (r.chance(1, 4)) { int sw = r.chance(1, 2) ? 1 + int(r.below(5)) : int(k.order.size()); for (int j = 0; j < sw && !k.order.empty(); j++) std::swap(k.order[r.below(k.order.size())], k.order[r.below(k.order.size())]); } // not sorted, which is tolerated
      uint32_t m = uint32_t(k.order.size()), sr = 1, es = 0; while (sr * 2 <= m) { sr *= 2; es++; } d.u16(m); d.u16(sr * 6); d.u16(es); d.u16((m - std::min(m, sr)) * 6); for (auto& q : k.order) { d.u16(q.first); d.u16(q.second); d.u16(uint32_t(k.pairs[q])); }
    }
    else if (k.format == 2) {
      k.lc = 2 + uint32_t(r.below(4)); k.rc = 2 + uint32_t(r.below(4)); k.lf = uint32_t(r.below(6)); k.rf = uint32_t(r.below(6)); k.ln = 1 + uint32_t(r.below(gc)); k.rn = 1 + uint32_t(r.below(gc));
      for (uint32_t j = 0; j < k.ln; j++) k.lcls.push_back(uint32_t(r.below(k.lc))); for (uint32_t j = 0; j < k.rn; j++) k.rcls.push_back(uint32_t(r.below(k.rc))); for (uint32_t x = 0; x < k.lc; x++) for (uint32_t y = 0; y < k.rc; y++) k.m.push_back(x && y ? kv() : 0);
      uint32_t lo = hs + 8, ro = lo + 4 + 2 * k.ln, ao = ro + 4 + 2 * k.rn; d.u16(k.rc * 2); d.u16(lo); d.u16(ro); d.u16(ao); d.u16(k.lf); d.u16(k.ln); for (uint32_t c : k.lcls) d.u16(ao + c * k.rc * 2); d.u16(k.rf); d.u16(k.rn); for (uint32_t c : k.rcls) d.u16(c * 2); for (int v : k.m) d.u16(uint32_t(v));
    }
    else {
      k.lc = 1 + uint32_t(r.below(5)); k.rc = 1 + uint32_t(r.below(5)); std::vector<int> vals; int nv = 1 + int(r.below(10)); for (int j = 0; j < nv; j++) vals.push_back(kv()); for (uint32_t j = 0; j < gc; j++) { k.lcls.push_back(uint32_t(r.below(k.lc))); k.rcls.push_back(uint32_t(r.below(k.rc))); }
      d.u16(gc); d.u8(uint32_t(nv)); d.u8(k.lc); d.u8(k.rc); d.u8(0); for (int v : vals) d.u16(uint32_t(v)); for (uint32_t c : k.lcls) d.u8(c); for (uint32_t c : k.rcls) d.u8(c); for (uint32_t j = 0; j < k.lc * k.rc; j++) { uint32_t x = uint32_t(r.below(uint32_t(nv))); d.u8(x); k.m.push_back(vals[x]); }
    }
    uint32_t len = hs + uint32_t(d.size()); if (mac) { b.u32(len); b.u8(k.vertical ? 0x80 : 0); b.u8(uint32_t(k.format)); b.u16(0); } else { b.u16(0); b.u16(len); b.u16(uint32_t(k.format) << 8 | (k.vertical ? 0u : 1u) | (k.override_ ? 8u : 0u)); }
    b.put(d); out.push_back(k);
  }
  return b;
}
static std::string show(const std::vector<G>& v) { std::string s; char t[40]; for (size_t i = 0; i < v.size() && i < 24; i++) { snprintf(t, sizeof t, " %u/%u", v[i].id, v[i].cluster); s += t; } return s; }
static void check_glyphs(const BLGlyphBuffer& gb, const std::vector<G>& want, const char* key) {
  bool same = gb.size() == want.size(); for (size_t i = 0; same && i < want.size(); i++) same = gb.content()[i] == want[i].id && gb.info_data()[i].cluster == want[i].cluster; std::vector<G> got; for (size_t i = 0; i < gb.size() && i < 40; i++) got.push_back({gb.content()[i], gb.info_data()[i].cluster});
  VH_CHECK(same, key, "%zu glyphs%s, expected %zu:%s", gb.size(), show(got).c_str(), want.size(), show(want).c_str());
}
static void check_pos(const BLGlyphBuffer& gb, const std::vector<G>& v, const std::vector<P>& want, const char* key) {
  if (gb.size() != want.size()) return; // reported
  for (size_t i = 0; i < want.size(); i++) { auto& q = gb.placement_data()[i]; VH_CHECK(q.placement.x == want[i].px && q.placement.y == want[i].py && q.advance.x == want[i].ax && q.advance.y == want[i].ay, key, "glyph %zu of%s is at (%d, %d) with advance (%d, %d), expected (%d, %d), (%d, %d)", i, show(v).c_str(), q.placement.x, q.placement.y, q.advance.x, q.advance.y, want[i].px, want[i].py, want[i].ax, want[i].ay); }
}
static fg::Font base_font(Rng& r, uint32_t gc) {
  fg::Font f; f.upem = 1000; f.glyph_count = int(gc); f.long_metrics = r.chance(1, 3) ? 1 + int(r.below(gc)) : int(gc); fg::CMapSub c; c.platform = 3; c.encoding = 1; c.format = 4; for (uint32_t g = 1; g < gc; g++) c.map[0x100 + g] = g; f.cmaps.push_back(c);
  for (uint32_t i = 0; i < gc; i++) { fg::Glyph gl; gl.kind = 0; f.glyphs.push_back(gl); f.advance.push_back(int(i) < f.long_metrics ? int(r.range(100, 900)) : f.advance.back()); f.lsb.push_back(0); }
  return f;
}
// Defects that are recorded, one shape each.
static void known(Rng& r, int which) {
  const uint32_t gc = 12; fg::Font f = base_font(r, gc); f.cmaps[0].format = 12; Layout l; std::vector<G> want;
  auto single = [](uint32_t a, uint32_t b) { Sub s; s.type = 1; s.fmt = 2; s.single[a] = b; return s; };
  fg::Buf b; uint32_t text[3] = {0x101, 0x102, 0x103};
  if (which == 0) { Lookup k{1, false, {single(2, 5), single(5, 7)}}; l.lookups.push_back(k); l.features.push_back({"liga", {0}}); l.scripts.push_back({"latn", true, LangSys{0xFFFF, {0}}, false, LangSys()}); b = encode(r, l); want = {{1, 0}, {5, 1}, {3, 2}}; }
  else { // lookup 0: chained context of one glyph, which applies lookup 1 to it
    auto put = [&](std::initializer_list<uint32_t> v) { for (uint32_t q : v) b.u16(q); }; auto tag = [&](const char* t) { for (int i = 0; i < 4; i++) b.u8(uint8_t(t[i])); };
    put({1, 0, 10, 30, 44, 1}); tag("latn"); put({8, 4, 0, 0, 0xFFFF, 1, 0, 1}); tag("calt"); put({8, 0, 1, 0}); put({2, 6, 36});
    put({6, 0, 1, 8, 3, 0, 1, 16, 0, 1, 0, 1, 1, 1, 2}); put({1, 0, 1, 8, 1, 6, 3, 1, 1, 2}); want = {{1, 0}, {5, 1}, {3, 2}};
  }
  f.extra.push_back({"GSUB", b}); Bytes data = f.build(r); BLFontFace ff = make_face(data); BLFont font; VH_OK(font.create_from_face(ff, 20.0f), "create-font"); BLGlyphBuffer gb; VH_OK(gb.set_utf32_text(text, 3), "set-text"); VH_OK(font.shape(gb), "shape");
  count(which == 0 ? "p21_stack" : "p21_contextual"); check_glyphs(gb, want, which == 0 ? "lookup-subtables-stack" : "contextual-not-applied");
}
static std::string describe(const Layout& l) {
  std::string o; char t[120]; size_t n = 0; for (auto& k : l.lookups) { snprintf(t, sizeof t, " L%zu type %d%s:", n++, k.type, k.ext ? " ext" : ""); o += t; for (auto& s : k.subs) { snprintf(t, sizeof t, " [fmt %d, %zu/%zu/%zu/%zu/%zu, vf %x %x]", s.fmt, s.single.size(), s.multi.size(), s.ligs.size(), s.val.size(), s.pairs.size(), s.vf1, s.vf2); o += t; } }
  for (auto& f : l.features) { o += std::string(" ") + f.tag + "("; for (uint32_t q : f.lookups) o += std::to_string(q) + ","; o += ")"; } for (auto& q : l.scripts) { snprintf(t, sizeof t, " %s(default %d required %d:", q.tag, q.has_default, q.def.required); o += t; for (uint32_t f : q.def.features) o += std::to_string(f) + ","; o += ")"; } return o;
}
static void run(uint64_t id, Rng& r) {
  if (id < 2) { known(r, int(id)); return; }
  uint32_t gc = 8 + uint32_t(r.below(r.chance(1, 4) ? 90 : 20)); fg::Font f = base_font(r, gc); Layout ls, lp; std::vector<KernGroup> lk; bool hs = r.chance(3, 4), hp = r.chance(2, 3), hk = r.chance(1, 2);
  if (hs) { ls = rnd_layout(r, false, gc); f.extra.push_back({"GSUB", encode(r, ls)}); } if (hp) { lp = rnd_layout(r, true, gc); f.extra.push_back({"GPOS", encode(r, lp)}); } if (hk) f.extra.push_back({"kern", rnd_kern(r, gc, lk)});
  for (auto& e : f.extra) if (e.second.size() > 60000) return; // offsets have 16 bits
  bool gpos_kern = false; if (hp) for (auto& q : lp.features) gpos_kern |= !strcmp(q.tag, "kern");
  std::map<std::string, uint32_t> set; BLFontFeatureSettings fs; static const char* all[] = {"calt", "ccmp", "clig", "dlig", "hlig", "liga", "rlig", "salt", "smcp", "ss01", "kern"}; int ns = r.chance(1, 2) ? 0 : int(r.below(9)); for (int i = 0; i < ns; i++) { const char* t = all[r.below(11)]; uint32_t v = uint32_t(r.below(2)); set[t] = v; VH_OK(fs.set_value(BL_MAKE_TAG(t[0], t[1], t[2], t[3]), v), "settings"); } for (const char* t : {"ccmp", "rlig"}) if (!set.count(t)) { uint32_t v = uint32_t(r.below(2)); set[t] = v; VH_OK(fs.set_value(BL_MAKE_TAG(t[0], t[1], t[2], t[3]), v), "settings"); } // whether they are on by default isn't judged
  Bytes data = f.build(r); BLFontFace ff = make_face(data); float size = float(r.range(5, 60)); BLFont font; VH_OK(font.create_from_face(ff, size, fs), "create-font"); BLGlyphBuffer gb;
  std::set<uint32_t> ps = hs ? plan(ls, set) : std::set<uint32_t>(), pp = hp ? plan(lp, set) : std::set<uint32_t>(); Hash h; h.add(hash_bytes(data.data(), data.size())); distinct(h.h);
  if (st().verbose) { printf("GSUB%s\nGPOS%s\nplan:", describe(ls).c_str(), describe(lp).c_str()); for (uint32_t k : ps) printf(" %u", k); printf(" |"); for (uint32_t k : pp) printf(" %u", k); printf(" settings:"); for (auto& q : set) printf(" %s=%u", q.first.c_str(), q.second); printf("\n"); }
  if (st().verbose) for (auto& e : f.extra) { printf("%s:", e.first.c_str()); for (size_t i = 0; i + 1 < e.second.size(); i += 2) printf(" %d", int16_t(e.second.d[i] << 8 | e.second.d[i + 1])); printf("\n"); }
  auto rtext = [&] { // pieces that the tables react to
    std::vector<uint32_t> t; int n = r.chance(1, 12) ? int(r.range(100, 400)) : 1 + int(r.skew(24));
    while (int(t.size()) < n) {
      uint32_t k = uint32_t(r.below(4));
      if (k == 0 && hs && !ls.lookups.empty()) { auto& q = ls.lookups[r.below(ls.lookups.size())]; auto& s = q.subs[r.below(q.subs.size())]; if (q.type == 4 && !s.ligs.empty()) { auto it = s.ligs.begin(); std::advance(it, long(r.below(s.ligs.size()))); auto& c = it->second[r.below(it->second.size())].first; size_t cut = r.chance(1, 4) ? r.below(c.size()) : c.size(); for (size_t i = 0; i < cut; i++) t.push_back(c[i]); } else if (!s.single.empty()) { auto it = s.single.begin(); std::advance(it, long(r.below(s.single.size()))); if (q.type == 8) for (size_t i = s.back.size(); i-- > 0;) t.push_back(*s.back[i].begin()); t.push_back(it->first); if (q.type == 8) for (auto& w : s.ahead) t.push_back(*w.rbegin()); } else if (!s.multi.empty()) { auto it = s.multi.begin(); std::advance(it, long(r.below(s.multi.size()))); t.push_back(it->first); } }
      else if (k == 1 && hp && !lp.lookups.empty()) { auto& q = lp.lookups[r.below(lp.lookups.size())]; auto& s = q.subs[r.below(q.subs.size())]; if (!s.pairs.empty()) { auto it = s.pairs.begin(); std::advance(it, long(r.below(s.pairs.size()))); t.push_back(it->first.first); t.push_back(it->first.second); } else if (!s.cov.empty()) { t.push_back(*s.cov.begin()); if (!s.c2.empty()) t.push_back(s.c2.begin()->first); } }
      else if (k == 2 && hk && !lk.empty()) { auto& g = lk[r.below(lk.size())]; if (!g.order.empty()) { auto& q = g.order[r.below(g.order.size())]; t.push_back(q.first); t.push_back(q.second); } }
      t.push_back(1 + uint32_t(r.below(r.chance(1, 2) ? std::min<uint32_t>(gc - 1, 12) : gc - 1)));
    }
    return t;
  };
  auto base = [&](const std::vector<G>& v) { std::vector<P> p(v.size()); for (size_t i = 0; i < v.size(); i++) p[i].ax = v[i].id < gc ? f.advance[v[i].id] : 0; return p; };
  int texts = int(r.range(2, 6));
  for (int q = 0; q < texts; q++) {
    std::vector<uint32_t> t = rtext(); std::vector<uint32_t> u; std::vector<G> v; bool alien = r.chance(1, 8); for (size_t i = 0; i < t.size(); i++) { if (alien && r.chance(1, 6)) t[i] = 0; u.push_back(t[i] ? 0x100 + t[i] : 0x4E00); auto it = f.cmaps[0].map.find(u[i]); v.push_back({it == f.cmaps[0].map.end() ? 0 : it->second, uint32_t(i)}); }
    VH_OK(gb.set_utf32_text(u.data(), u.size()), "set-text");
    if (r.chance(2, 3)) {
      VH_OK(font.shape(gb), "shape"); for (uint32_t k : ps) gsub(v, ls.lookups[k]); check_glyphs(gb, v, "gsub"); std::vector<P> p = base(v); for (uint32_t k : pp) gpos(v, p, lp.lookups[k]);
      auto it = set.find("kern"); if (hk && !gpos_kern && (it == set.end() || it->second)) { kern(v, p, lk); count("p21_legacy_kern"); }
      check_pos(gb, v, p, hk && !gpos_kern ? "kern" : "gpos");
      BLTextMetrics tm; VH_OK(font.get_text_metrics(gb, tm), "text-metrics"); double a = 0, w = 0; for (auto& e : p) { a += e.ax; w += std::abs(e.ax); } VH_CHECK(fabs(tm.advance.x - a * double(size) / 1000) <= 1e-4 * (1 + w * double(size) / 1000), "text-metrics", "advance %g, expected %g", tm.advance.x, a * double(size) / 1000); count("p21_shaped");
    }
    else { // the steps, with chosen lookups
      VH_OK(font.map_text_to_glyphs(gb), "map"); 
      if (hs) { BLBitArray bits; std::set<uint32_t> on; for (uint32_t k = 0; k < ls.lookups.size(); k++) { bool b = r.chance(1, 2); VH_OK(bits.append_bit(b), "bits"); if (b) on.insert(k); } VH_OK(font.apply_gsub(gb, bits), "apply-gsub"); for (uint32_t k : on) gsub(v, ls.lookups[k]); check_glyphs(gb, v, "gsub-steps"); }
      // Advances, then lookups.
      std::vector<P> p = base(v); for (uint32_t k : pp) gpos(v, p, lp.lookups[k]); auto it = set.find("kern"); if (hk && !gpos_kern && (it == set.end() || it->second)) kern(v, p, lk); VH_OK(font.position_glyphs(gb), "position"); check_pos(gb, v, p, "gpos");
      if (hp) { BLBitArray bits; std::set<uint32_t> on; for (uint32_t k = 0; k < lp.lookups.size(); k++) { bool b = r.chance(1, 2); VH_OK(bits.append_bit(b), "bits"); if (b) on.insert(k); } VH_OK(font.apply_gpos(gb, bits), "apply-gpos"); for (uint32_t k : on) gpos(v, p, lp.lookups[k]); check_pos(gb, v, p, "gpos-steps"); }
      bool has = false; for (auto& k : lk) has |= !k.vertical && (k.format || !k.pairs.empty());
      if (has && !gpos_kern && r.chance(1, 2)) { VH_OK(font.apply_kerning(gb), "kerning"); kern(v, p, lk); check_pos(gb, v, p, "kern-steps"); }
      count("p21_steps");
    }
    evals(v.size());
  }
  for (int i = 0; i < 16; i++) for (int k = 0; k < 2; k++) if (g_hits[k][i]) { char n[32]; snprintf(n, sizeof n, k == 0 ? "gsub_type%d" : i < 8 ? "gpos_kind%d" : "kern_format%d", i >= 8 && k ? i - 8 : i); count(n, g_hits[k][i]); g_hits[k][i] = 0; }
}
} // namespace p21
