// P39: a font manager against a model: the list of the added faces in the order they were added.
#include <atomic>
#include <thread>
#include <sched.h>
static std::string utf8_of(const std::vector<uint16_t>& w) {
  std::string o; for (size_t i = 0; i < w.size(); i++) { uint32_t c = w[i]; if (c >= 0xD800 && c < 0xDC00) c = 0x10000 + ((c - 0xD800) << 10) + (w[++i] - 0xDC00u);
    if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); } else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } }
  return o;
}
struct FmFace { BLFontFace face; std::string family; uint32_t order() const { return face.style() * 10000 + face.weight(); } };
struct FmModel {
  std::vector<const FmFace*> added; std::map<std::string, std::vector<const FmFace*>> fam; std::vector<std::string> fams;
  bool has(const BLFontFace& f) const { for (auto a : added) if (a->face._d.impl == f._d.impl) return true; return false; }
  void add(const FmFace* f) { if (has(f->face)) return; added.push_back(f); if (!fam.count(f->family)) fams.push_back(f->family); auto& v = fam[f->family]; size_t i = 0; while (i < v.size() && v[i]->order() <= f->order()) i++; v.insert(v.begin() + ptrdiff_t(i), f); }
  // Number of letters that differ only by their case (capped as documented by its 8 bits), -1 if the names differ.
  static int name_diff(const std::string& a, const std::string& b) { if (a.size() != b.size()) return -1; int d = 0; for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; auto lo = [](char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }; if (lo(a[i]) != lo(b[i])) return -1; d++; } return std::min(d, 255); }
};
typedef std::vector<int> FmKey;
static FmKey fm_key(const FmFace* f, int nd, uint32_t style, uint32_t weight, uint32_t stretch) { auto D = [](int p, int v, FmKey& k) { k.push_back(abs(p - v)); k.push_back(p < v); }; FmKey k{nd}; D(int(style), int(f->face.style()), k); D(int(weight), int(f->face.weight()), k); D(int(stretch), int(f->face.stretch()), k); return k; }

static std::string fm_vary(Rng& r, std::string s) { uint32_t how = r.below(4); for (char& c : s) { bool l = c >= 'a' && c <= 'z', u = c >= 'A' && c <= 'Z'; if ((l || u) && (how == 0 ? false : how == 1 ? true : r.chance(1, how == 2 ? 2 : 12))) c = char(c ^ 32); } return s; }
// A font of one empty glyph with the given names; `family` gets the family name that a user must see.
static FmFace fm_face(Rng& r, const std::string& stem) {
  fg::Font f; f.glyphs.resize(1); f.advance = {500}; f.lsb = {0}; f.weight = r.chance(1, 4) ? uint32_t(r.range(1, 1000)) : uint32_t(r.range(1, 9)) * 100; f.stretch = uint32_t(r.range(1, 9)); f.style = uint32_t(r.below(3));
  fg::CMapSub c; c.platform = 3; c.encoding = 1; c.format = 4; c.map[65] = 0; (void)c;
  std::string want; auto put = [&](int id, const std::string& t) { std::string o;
    fg::NameRec n; n.id = id; n.text = t;
    if (r.chance(1, 4)) { for (char ch : t) n.wide.push_back(uint8_t(ch)); static const uint16_t ex[] = {0x17E, 0x20AC, 0x4E2D, 0xD83D, 0xDE00}; int k = int(r.below(4)); if (k < 3) n.wide.push_back(ex[k]); else { n.wide.push_back(ex[3]); n.wide.push_back(ex[4]); } if (r.chance(1, 4)) { o = utf8_of(n.wide); n.wide.push_back(0); } else o = utf8_of(n.wide); }
    else { if (r.chance(1, 4)) n.win = false; std::vector<uint16_t> w; for (char ch : t) w.push_back(uint8_t(ch)); o = utf8_of(w); }
    if (r.chance(1, 5)) { fg::NameRec g; g.id = id; g.text = "Fremd" + t; g.lang = 0x407; f.names.push_back(g); }
    f.names.push_back(n); return o; };
  std::string sub = r.chance(1, 2) ? "Regular" : "Bold Q"; bool typo = r.chance(1, 5);
  want = put(1, typo ? stem + " Other" : stem); std::string subw = put(2, sub), full = put(4, stem + " " + sub), ps = put(6, "Ps-" + sub); std::string tsub;
  if (typo) { want = put(16, stem); if (r.chance(1, 2)) subw = put(17, sub + "x"); }
  if (r.chance(1, 3)) { for (size_t i = f.names.size(); i > 1; i--) std::swap(f.names[i - 1], f.names[r.below(i)]); }
  FmFace o; o.face = make_face(f.build(r)); o.family = want;
  VH_CHECK(std::string(o.face.family_name().data(), o.face.family_name().size()) == want, "names", "family name \"%s\", the file says \"%s\"", o.face.family_name().data(), want.c_str());
  VH_CHECK(std::string(o.face.full_name().data(), o.face.full_name().size()) == full && std::string(o.face.post_script_name().data(), o.face.post_script_name().size()) == ps, "names", "full name \"%s\" (file: \"%s\"), PostScript name \"%s\" (file: \"%s\")", o.face.full_name().data(), full.c_str(), o.face.post_script_name().data(), ps.c_str());
  std::string gs(o.face.subfamily_name().data(), o.face.subfamily_name().size()); bool redundant = want.size() >= subw.size() && !subw.empty() && want.compare(want.size() - subw.size(), std::string::npos, subw) == 0;
  VH_CHECK(redundant ? gs.empty() : gs == subw, "names", "subfamily name \"%s\", the file says \"%s\"", gs.c_str(), subw.c_str());
  count("p39_faces"); return o;
}
static void fm_query(Rng& r, const FmModel& m, const BLFontManager& fm, const std::vector<FmFace>& pool, const std::vector<std::string>& stems) {
  std::string name; switch (r.below(6)) { case 0: name = stems[r.below(stems.size())]; break; case 1: name = "Nobody"; break; case 2: name = fm_vary(r, stems[r.below(stems.size())]); break; default: name = pool[r.below(pool.size())].family; if (r.chance(1, 2)) name = fm_vary(r, name); } if (r.chance(1, 25)) name.clear(); if (r.chance(1, 20)) name += "s"; if (r.chance(1, 25) && !name.empty()) name.pop_back();
  bool cstr = r.chance(1, 3); char* nm = (char*)malloc(name.size() + (cstr ? 1 : 0) + (name.empty() && !cstr)); memcpy(nm, name.data(), name.size()); if (cstr) nm[name.size()] = 0; size_t nsz = cstr ? SIZE_MAX : name.size(); // An exact-size copy: reading past its end is seen.
  struct Free { char* p; ~Free() { free(p); } } fr{nm};
  if (r.chance(1, 2)) { // The family with the fewest differences; among equals the one that was found in any order.
    BLArray<BLFontFace> out; if (r.chance(1, 2)) out.append(pool[0].face); BLArray<BLFontFace> hold; if (r.chance(1, 3)) hold = out; BLResult e = bl_font_manager_query_faces_by_family_name(&fm, nm, nsz, &out);
    int best = 1000; for (auto& f : m.fams) { int d = name.empty() ? -1 : FmModel::name_diff(f, name); if (d >= 0 && d < best) best = d; }
    if (best == 1000) { VH_CHECK(e == BL_ERROR_FONT_NO_MATCH && out.is_empty(), "family-none", "query for \"%.60s\" returned %u and %zu faces", name.c_str(), e, out.size()); count("p39_family_none"); return; }
    bool ok = false; size_t nn = 0; for (auto& f : m.fams) { if (FmModel::name_diff(f, name) != best) continue; auto& v = m.fam.at(f); nn = v.size(); bool same = v.size() == out.size(); for (size_t i = 0; same && i < v.size(); i++) same = out[i]._d.impl == v[i]->face._d.impl; ok = ok || same; }
    VH_CHECK(e == BL_SUCCESS && ok, "family-list", "query for \"%.60s\" returned %u and %zu faces, expected %zu of the closest family", name.c_str(), e, out.size(), nn); count("p39_family_hits"); evals(nn); return;
  }
  BLFontQueryProperties q; q.style = uint32_t(r.below(3)); q.weight = r.chance(1, 2) ? uint32_t(r.range(1, 9)) * 100 : uint32_t(r.below(1001)); q.stretch = uint32_t(r.below(10)); bool bad = r.chance(1, 12), null_q = !bad && r.chance(1, 8); if (bad) { switch (r.below(3)) { case 0: q.style = 3 + uint32_t(r.skew(1u << 30)); break; case 1: q.weight = 1001 + uint32_t(r.skew(1u << 30)); break; default: q.stretch = 10 + uint32_t(r.skew(1u << 30)); } }
  BLFontFace out; if (r.chance(1, 2)) out = pool[0].face; BLResult e = bl_font_manager_query_face(&fm, nm, nsz, null_q ? nullptr : &q, &out);
  if (bad) { VH_CHECK(e == BL_ERROR_INVALID_VALUE, "query-bad", "style %u weight %u stretch %u: %u", q.style, q.weight, q.stretch, e); count("p39_bad_props"); return; }
  if (null_q) { q.style = 0; q.weight = 400; q.stretch = 5; } if (!q.weight) q.weight = 400; if (!q.stretch) q.stretch = 5;
  FmKey best; std::vector<const FmFace*> win; for (auto f : m.added) { int d = name.empty() ? -1 : FmModel::name_diff(f->family, name); if (d < 0) continue; FmKey k = fm_key(f, d, q.style, q.weight, q.stretch); if (win.empty() || k < best) { win.clear(); best = k; } if (k == best) win.push_back(f); }
  if (win.empty()) { VH_CHECK(e == BL_ERROR_FONT_NO_MATCH && !out.is_valid(), "query-none", "query for \"%.60s\" returned %u and a%s face", name.c_str(), e, out.is_valid() ? " valid" : "n invalid"); count("p39_query_none"); return; }
  bool ok = false; for (auto w : win) ok = ok || w->face._d.impl == out._d.impl;
  VH_CHECK(e == BL_SUCCESS && ok, "query-best", "query for \"%.60s\" style %u weight %u stretch %u returned %u, \"%.60s\" style %u weight %u stretch %u; the best match is \"%.60s\" style %u weight %u stretch %u", name.c_str(), q.style, q.weight, q.stretch, e, out.family_name().data(), out.style(), out.weight(), out.stretch(), win[0]->family.c_str(), win[0]->face.style(), win[0]->face.weight(), win[0]->face.stretch()); count("p39_query_hits"); if (m.added.size() > 1 && win.size() == 1) count("p39_query_unique_best");
}
static void fm_check(const FmModel& m, const BLFontManager& fm) { VH_CHECK(fm.face_count() == m.added.size() && fm.family_count() == m.fams.size(), "counts", "%zu faces in %zu families, expected %zu in %zu", fm.face_count(), fm.family_count(), m.added.size(), m.fams.size()); evals(2); }

static void p39(uint64_t id, Rng& r) {
  bool wide = id % 40 == 7; size_t nf = wide ? 150 + r.below(300) : 1 + r.below(14), ns = wide ? 100 + r.below(200) : 1 + r.below(4);
  std::vector<std::string> stems; for (size_t i = 0; i < ns; i++) { static const char* st[] = {"Gen", "gEN", "Alpha Beta", "Z", "Re-gular [1]@", "N\xE9z"}; std::string s = st[r.below(6)]; if (wide) s += std::to_string(i); if (r.chance(1, 12)) s = std::string(200 + r.below(200), 'q') + s; stems.push_back(s); }
  std::vector<FmFace> pool; for (size_t i = 0; i < nf; i++) { if (i && r.chance(1, 10)) { FmFace& o = pool[r.below(pool.size())]; FmFace c; BLFontData d = o.face.data(); VH_OK(c.face.create_from_data(d, 0), "face-copy"); c.family = o.family; pool.push_back(c); continue; } std::string s = stems[r.below(stems.size())]; if (r.chance(1, 3)) s = fm_vary(r, s); pool.push_back(fm_face(r, s)); }
  BLFontManager fm; FmModel m; if (r.chance(1, 2)) VH_OK(fm.create(), "create"); fm_check(m, fm); VH_CHECK(!fm.has_face(pool[0].face), "member", "an empty manager has a face");
  if (!wide && r.chance(1, 5)) { // Threads add and query together.
    VH_OK(fm.create(), "create"); int nt = int(r.range(2, 4)); std::vector<std::vector<size_t>> plan{size_t(nt)}; std::vector<std::string> err{size_t(nt)}; for (auto& p : plan) for (size_t i = 0, n = 1 + r.below(8); i < n; i++) p.push_back(r.below(pool.size()));
    std::atomic<int> go{0}; std::vector<std::thread> th; std::vector<FmFace>* pp = &pool;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { go++; while (go.load() < nt) sched_yield(); BLFontManager mine(fm); size_t seen = 0;
      for (size_t k : plan[size_t(t)]) { const FmFace& f = (*pp)[k]; if (mine.add_face(f.face) != BL_SUCCESS) err[size_t(t)] = "add_face failed"; if (!mine.has_face(f.face)) err[size_t(t)] = "an added face is not a member";
        size_t c = mine.face_count(); if (c < seen) err[size_t(t)] = "the number of faces decreased"; seen = c;
        BLArray<BLFontFace> l; if (mine.query_faces_by_family_name(BLStringView{f.family.data(), f.family.size()}, l) != BL_SUCCESS) err[size_t(t)] = "the family of an added face is not found"; bool in = false; for (auto& x : l) { if (x._d.impl == f.face._d.impl) in = true; bool known = false; for (auto& o : *pp) known = known || (o.face._d.impl == x._d.impl && o.family == f.family); if (!known) err[size_t(t)] = "a listing has a foreign face"; } if (!in) err[size_t(t)] = "a listing lacks an added face";
        BLFontFace q; if (mine.query_face(BLStringView{f.family.data(), f.family.size()}, q) != BL_SUCCESS || !q.is_valid()) err[size_t(t)] = "a query finds nothing"; } });
    for (auto& t : th) t.join(); for (auto& e : err) VH_CHECK(e.empty(), "threads", "%s", e.c_str());
    for (auto& p : plan) for (size_t k : p) m.add(&pool[k]); fm_check(m, fm);
    for (auto& kv : m.fam) { BLArray<BLFontFace> l; VH_OK(fm.query_faces_by_family_name(BLStringView{kv.first.data(), kv.first.size()}, l), "threads-list"); VH_CHECK(l.size() == kv.second.size(), "threads-list", "%zu faces listed, %zu added", l.size(), kv.second.size()); for (size_t i = 0; i < l.size(); i++) { VH_CHECK(!i || l[i - 1].style() * 10000 + l[i - 1].weight() <= l[i].style() * 10000 + l[i].weight(), "threads-list", "listed out of order"); VH_CHECK(m.has(l[i]), "threads-list", "a foreign face"); for (size_t j = 0; j < i; j++) VH_CHECK(l[i]._d.impl != l[j]._d.impl, "threads-list", "listed twice"); } }
    count("p39_threaded"); distinct(Hash().add(nt).add(pool.size()).add(m.added.size()).h); return;
  }
  Hash h; size_t steps = wide ? nf * 2 : 4 + r.below(40); BLFontManager other; FmModel om;
  for (size_t i = 0; i < steps; i++) switch (r.below(8)) {
    case 0: case 1: case 2: { const FmFace& f = pool[r.below(pool.size())]; h.add(1); VH_OK(fm.add_face(f.face), "add"); m.add(&f); VH_CHECK(fm.has_face(f.face), "member", "an added face is not a member"); fm_check(m, fm); break; }
    case 3: { const FmFace& f = pool[r.below(pool.size())]; VH_CHECK(fm.has_face(f.face) == m.has(f.face), "member", "has_face says %d", fm.has_face(f.face)); BLFontFace none; VH_CHECK(!fm.has_face(none), "member", "has a default face"); if (r.chance(1, 5)) { BLFontManager c(fm); VH_CHECK(c.add_face(none) == BL_ERROR_FONT_NOT_INITIALIZED, "add-invalid", "a default face was accepted"); fm_check(m, fm); } h.add(2); break; }
    case 4: { h.add(3); if (r.chance(1, 3)) { BLFontManager c(fm); const FmFace& f = pool[r.below(pool.size())]; bool valid = fm.is_valid(); VH_OK(c.add_face(f.face), "add-shared"); if (valid) m.add(&f); else VH_CHECK(!fm.is_valid() && c.face_count() == 1, "add-default", "adding to a default manager changed another handle"); fm_check(m, fm); } // Handles refer to the same manager.
      else if (r.chance(1, 8)) { fm.swap(other); std::swap(m, om); fm_check(m, fm); } else if (r.chance(1, 10)) { fm.reset(); m = FmModel(); fm_check(m, fm); } break; }
    default: h.add(4); fm_query(r, m, fm, pool, stems);
  }
  fm_check(om, other); distinct(h.add(nf).add(m.added.size()).add(m.fams.size()).h); if (id % 100 == 0) sample("%zu faces of %zu families, %zu steps", m.added.size(), m.fams.size(), steps);
}
