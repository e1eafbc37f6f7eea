// P31: threads that share values and global services, under ThreadSanitizer. Every operation returns a digest that must
// be the one the same operation returns on a private equal value in one thread.
#include "vh.h"
#include <atomic>
#include <thread>
#include <sched.h>
using namespace vh;
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0"; }

namespace {
std::vector<BLArray<uint8_t>> g_fonts; std::vector<std::string> g_files; BLArray<uint8_t> g_img[4];

struct Sh {
  BLPath path[2]; BLGradient grad[2]; BLImage img[2]; BLFontData fd; BLFontFace face; BLFont font; BLPattern pat; BLString str; BLArray<uint32_t> arr; BLArray<BLString> sarr; BLBitSet bits; BLBitArray ba; BLVar var; BLStrokeOptions so;
};

void make_path(Rng& r, BLPath& p) { int n = int(r.range(0, 12)); p.move_to(r.dbl(0, 40), r.dbl(0, 40)); for (int i = 0; i < n; i++) switch (r.below(4)) { case 0: p.line_to(r.dbl(0, 40), r.dbl(0, 40)); break; case 1: p.quad_to(r.dbl(0, 40), r.dbl(0, 40), r.dbl(0, 40), r.dbl(0, 40)); break; case 2: p.cubic_to(r.dbl(0, 40), r.dbl(0, 40), r.dbl(0, 40), r.dbl(0, 40), r.dbl(0, 40), r.dbl(0, 40)); break; default: p.close(); p.move_to(r.dbl(0, 40), r.dbl(0, 40)); } if (r.chance(1, 12)) p.line_to(NAN, 1); if (r.chance(1, 12)) p.reset(); }
void make_grad(Rng& r, BLGradient& g) { switch (r.below(3)) { case 0: g.create(BLLinearGradientValues(r.dbl(0, 40), 0, r.dbl(0, 40), 40)); break; case 1: g.create(BLRadialGradientValues(20, 20, 15, 16, r.dbl(5, 30))); break; default: g.create(BLConicGradientValues(20, 20, r.dbl(0, 6))); } g.set_extend_mode(BLExtendMode(r.below(3))); int n = int(r.range(1, 6)); for (int i = 0; i < n; i++) g.add_stop(r.chance(1, 5) ? double(r.below(2)) : r.unit(), BLRgba32(r.u32())); }

// Builds a set of values; the same generator state gives an equal set that shares nothing.
void build(Rng r, Sh& s) {
  for (auto& p : s.path) make_path(r, p);
  for (auto& g : s.grad) make_grad(r, g);
  for (auto& im : s.img) { int w = int(r.range(1, 40)), h = int(r.range(1, 40)); im.create(w, h, BL_FORMAT_PRGB32); BLImageData d; im.make_mutable(&d); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) ((uint32_t*)((char*)d.pixel_data + y * d.stride))[x] = 0xFF000000u | r.u32(); }
  BLArray<uint8_t> bytes; bytes.assign_deep(g_fonts[r.below(g_fonts.size())]); VH_OK(s.fd.create_from_data(bytes), "font-data"); VH_OK(s.face.create_from_data(s.fd, 0), "face"); VH_OK(s.font.create_from_face(s.face, float(r.dbl(4, 30))), "font");
  s.pat.create(s.img[0]); s.pat.set_extend_mode(BLExtendMode(r.below(9)));
  int n = int(r.skew(200)); for (int i = 0; i < n; i++) { s.str.append(char('a' + r.below(26))); s.arr.append(r.u32()); s.bits.add_bit(uint32_t(r.below(5000))); s.ba.append_bit(r.chance(1, 2)); if (i < 12) { BLString t; t.assign(s.str); s.sarr.append(t); } }
  switch (r.below(5)) { case 0: s.var = s.path[0]; break; case 1: s.var = s.grad[0]; break; case 2: s.var = s.img[0]; break; case 3: s.var = s.str; break; default: s.var = s.arr; }
  s.so.width = r.dbl(0.5, 6); double dash[2] = {r.dbl(1, 5), r.dbl(1, 5)}; if (r.chance(1, 3)) { s.so.dash_array.append(dash[0]); s.so.dash_array.append(dash[1]); }
}

uint64_t hpath(const BLPath& p) { Hash h; h.add(p.size()); if (p.size()) { h.add(p.command_data(), p.size()); for (size_t i = 0; i < p.size(); i++) if (p.command_data()[i] != BL_PATH_CMD_CLOSE) h.add(p.vertex_data()[i]); } return h.h; }
uint64_t himg(const BLImage& im) { Hash h; BLImageData d; if (im.get_data(&d) != BL_SUCCESS) return 1; h.add(d.size); for (int y = 0; y < d.size.h; y++) h.add((const uint8_t*)d.pixel_data + y * d.stride, size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); return h.h; }
uint64_t hstr(const BLString& s) { return hash_bytes(s.data(), s.size()); }
uint64_t hgrad(const BLGradient& g) { Hash h; h.add(g.type()).add(g.extend_mode()); for (size_t i = 0; i < g.size(); i++) h.add(g.stops()[i]); return h.h; }
uint64_t hruns(BLGlyphBuffer& gb) { Hash h; for (size_t i = 0; i < gb.size(); i++) { h.add(gb.content()[i]); if (gb.placement_data()) h.add(gb.placement_data()[i].placement).add(gb.placement_data()[i].advance); } return h.h; }
const char* g_words[] = {"AVAToffi", "Hello World", "a", "", "fi fl", "\xC3\xA9\xC3\xA0 \xE2\x82\xAC"};

// One operation on values of `s` (handles of this thread, or a set shared by const reference). Touches only own state.
enum { kOps = 30 };
uint64_t op(int k, const Sh& s, Rng r, bool mt) {
  Hash h; int i = int(r.below(2));
  switch (k) {
    case 0: { BLBox a{}, b{}; uint32_t f = 0; h.add(s.path[i].get_bounding_box(&a)); h.add(s.path[i].get_control_box(&b)); h.add(s.path[i].get_info_flags(&f)); h.add(a).add(b).add(f); break; }
    case 1: { BLBox a{}; if (r.chance(1, 2)) { uint32_t f; s.path[i].get_info_flags(&f); h.add(f); } h.add(s.path[i].get_bounding_box(&a)).add(a); break; }
    case 2: { BLPath p(s.path[i]); p.line_to(1, 2); p.translate(BLPoint(1, 3)); h.add(hpath(p)).add(hpath(s.path[i])); break; }
    case 3: { BLPath p; h.add(p.add_stroked_path(s.path[i], s.so, bl_default_approximation_options)); h.add(hpath(p)); break; }
    case 4: case 5: case 6: { BLImage im(48, 48, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; ci.thread_count = mt ? uint32_t(r.below(3)) : 0; if (!mt) r.below(3); BLContext c; h.add(c.begin(im, ci)); c.clear_all(); for (int j = 0; j < 3; j++) { switch (r.below(6)) { case 0: c.set_fill_style(s.grad[r.below(2)]); break; case 1: c.set_fill_style(s.pat); break; case 2: c.set_fill_style(BLRgba32(r.u32())); break; case 3: c.set_stroke_style(s.grad[i]); c.set_stroke_options(s.so); break; default: c.set_fill_style(s.grad[i]); } switch (r.below(6)) { case 0: c.fill_path(s.path[i]); break; case 1: c.stroke_path(s.path[1 - i]); break; case 2: c.fill_all(); break; case 3: c.blit_image(BLPointI(int(r.below(30)), 3), s.img[i]); break; case 4: c.fill_utf8_text(BLPoint(2, 30), s.font, "Afg"); break; default: c.fill_rect(BLRect(3, 4, r.dbl(1, 40), 20)); } } h.add(c.end()); h.add(himg(im)); break; }
    case 7: { h.add(hgrad(s.grad[i])); break; }
    case 8: { BLGradient g(s.grad[i]); g.add_stop(0.5, BLRgba32(0x80123456)); h.add(hgrad(g)).add(hgrad(s.grad[i])); BLImage im(20, 2, BL_FORMAT_PRGB32); BLContext c(im); c.clear_all(); c.fill_all(g); c.end(); h.add(himg(im)); break; }
    case 9: { h.add(himg(s.img[i])); break; }
    case 10: { BLImage m(s.img[i]); BLImageData d; h.add(m.make_mutable(&d)); ((uint8_t*)d.pixel_data)[0] ^= 0x55; h.add(himg(m)).add(himg(s.img[i])); break; }
    case 11: { BLImageCodec c; static const char* nm[] = {"PNG", "BMP", "QOI"}; h.add(c.find_by_name(nm[r.below(3)])); BLArray<uint8_t> out; h.add(s.img[i].write_to_data(out, c)); h.add(out.data(), out.size()); BLImage b; h.add(b.read_from_data(out)); h.add(himg(b)); break; }
    case 12: case 13: { BLGlyphBuffer gb; gb.set_utf8_text(g_words[r.below(6)]); h.add(s.font.shape(gb)); BLTextMetrics tm{}; h.add(s.font.get_text_metrics(gb, tm)); h.add(tm); h.add(hruns(gb)); break; }
    case 14: { BLPath p; BLGlyphId g = BLGlyphId(r.below(s.face.glyph_count() + 1)); h.add(s.font.get_glyph_outlines(g, p)); h.add(hpath(p)); BLBoxI b{}; uint32_t gg = g; h.add(s.face._impl() != nullptr); BLBox bb{}; h.add(bl_font_get_glyph_bounds(&s.font, &gg, 4, &b, 1)).add(b); break; }
    case 15: { BLBitSet bs; h.add(s.face.get_character_coverage(&bs)); h.add(bs.cardinality()); break; }
    case 16: { h.add(hstr(s.face.family_name())).add(hstr(s.face.full_name())).add(s.face.design_metrics()).add(s.face.weight()); BLArray<BLTag> t; h.add(s.face.get_feature_tags(&t)); h.add(t.data(), t.size() * 4); h.add(s.face.has_feature_tag(BL_MAKE_TAG('k', 'e', 'r', 'n'))); h.add(s.face.has_script_tag(BL_MAKE_TAG('l', 'a', 't', 'n'))); break; }
    case 17: { BLFont f; BLFontFeatureSettings fs; fs.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), uint32_t(r.below(2))); h.add(f.create_from_face(s.face, 12.5f, fs)); BLGlyphBuffer gb; gb.set_utf8_text("AVTo"); h.add(f.shape(gb)).add(hruns(gb)); break; }
    case 18: { BLFontFace f; h.add(f.create_from_data(s.fd, 0)); h.add(f.glyph_count()).add(hstr(f.family_name())); BLFontTable t; h.add(s.fd.get_table(0, &t, BL_MAKE_TAG('h', 'e', 'a', 'd'))); h.add(t.size); break; }
    case 19: { BLString t(s.str); t.append("xyz"); h.add(hstr(t)).add(hstr(s.str)).add(s.str.equals(t)); break; }
    case 20: { BLArray<uint32_t> a(s.arr); a.append(7u); h.add(a.data(), a.size() * 4); h.add(s.arr.data(), s.arr.size() * 4); BLArray<BLString> b(s.sarr); b.append(s.str); for (size_t j = 0; j < b.size(); j++) h.add(hstr(b[j])); break; }
    case 21: { BLBitSet b(s.bits); b.add_bit(77777); h.add(b.cardinality()).add(s.bits.cardinality()).add(s.bits.has_bit(uint32_t(r.below(5000)))); BLBitArray a(s.ba); a.append_bit(true); h.add(a.size()).add(a.cardinality()).add(s.ba.cardinality()); break; }
    case 22: { BLVar v(s.var); BLVar w(s.var); h.add(v == w); w.assign(s.str); v.swap(w); BLString q; h.add(bl_var_equals(&v, &s.str)); break; }
    case 23: { BLPattern p(s.pat); p.translate(1, 2); h.add(p.area()).add(himg(p.get_image())).add(s.pat.transform_type()); break; }
    case 24: { BLImage d; int w = int(r.range(1, 30)); h.add(BLImage::scale(d, s.img[i], BLSizeI(w, 9), BLImageScaleFilter(r.range(1, 4)))); h.add(himg(d)); break; }
    case 25: { int q = int(r.below(4)); BLImage im; h.add(im.read_from_data(g_img[q])); h.add(himg(im)); break; }
    case 26: { BLArray<BLImageCodec> cs = BLImageCodec::built_in_codecs(); h.add(cs.size()); BLImageCodec c; h.add(c.find_by_extension("a.jpg")).add(c.find_by_data(g_img[r.below(4)].data(), 32)).add(hstr(c.name())); break; }
    case 27: { BLArray<uint8_t> a; h.add(BLFileSystem::read_file(g_files[0].c_str(), a)); h.add(a.data(), std::min<size_t>(a.size(), 4096)); BLFontFace f; h.add(f.create_from_file(g_files[r.below(g_files.size())].c_str(), r.chance(1, 2) ? BL_FILE_READ_MMAP_ENABLED : BL_FILE_READ_NO_FLAGS)); h.add(f.glyph_count()); break; }
    case 28: { BLPath p(s.path[i]); BLPath q(s.path[1 - i]); h.add(p.equals(q)).add(p.add_reversed_path(q, BL_PATH_REVERSE_MODE_COMPLETE)); h.add(hpath(p)); h.add(s.path[i].hit_test(BLPoint(r.dbl(0, 40), r.dbl(0, 40)), BL_FILL_RULE_NON_ZERO)); break; }
    default: { BLFontManager m; m.create(); h.add(m.add_face(s.face)).add(m.add_face(s.face)).add(m.face_count()).add(m.has_face(s.face)); BLFontFace q; BLString fam(s.face.family_name()); h.add(m.query_face(fam.view(), q)).add(q.equals(s.face)); break; }
  }
  return h.h;
}
const char* kNames[] = {"path-info", "path-box", "path-cow", "path-stroke", "render", "render", "render", "grad", "grad-cow", "image", "image-cow", "codec", "shape", "shape", "outline", "coverage", "face", "font", "font-data", "string", "array", "bits", "var", "pattern", "scale", "decode", "codecs", "file", "path-add", "manager"};

struct Step { int kind; uint64_t seed; uint64_t want, got; int pause; bool shared; };
}

void vh_init() {
  std::string c = st().corpus; g_files = {c + "/glyfTest.ttf", c + "/CFFTest.otf", "/repo/blend2d-testing/resources/ABeeZee-Regular.ttf"};
  for (auto& f : g_files) { BLArray<uint8_t> a; if (BLFileSystem::read_file(f.c_str(), a) == BL_SUCCESS) g_fonts.push_back(a); } VH_ASSUME(!g_fonts.empty());
  Rng r(5); BLImage im(24, 17, BL_FORMAT_PRGB32); { BLContext x(im); x.fill_all(BLRgba32(0xFF204060)); x.fill_circle(8, 8, 6, BLRgba32(0xFFF02010)); x.end(); }
  static const char* nm[] = {"PNG", "BMP", "QOI"}; for (int i = 0; i < 3; i++) { BLImageCodec cd; VH_OK(cd.find_by_name(nm[i]), "codec"); VH_OK(im.write_to_data(g_img[i], cd), "enc"); }
  VH_ASSUME(BLFileSystem::read_file("/repo/blend2d-testing/resources/Leaves.jpeg", g_img[3]) == BL_SUCCESS || true);
  if (g_img[3].size() > 200000 || g_img[3].is_empty()) g_img[3].assign(g_img[0]); // Large photographs would dominate the time.
}

void vh_case(uint64_t, Rng& r) {
  int nt = int(r.range(2, 5)); int steps = int(r.range(1, 9)); bool mt = r.chance(1, 4);
  uint64_t bseed = r.u64(); Sh* s = new Sh(); build(Rng(bseed), *s);
  // Few kinds per case, so that threads meet on the same lazily computed state.
  int kinds[3]; for (int& k : kinds) k = int(r.below(kOps)); bool focus = r.chance(2, 3); uint64_t common = r.u64();
  std::vector<std::vector<Step>> plan(nt); Hash hh;
  for (auto& v : plan) for (int i = 0; i < steps; i++) { Step t{}; t.kind = focus ? kinds[r.below(3)] : int(r.below(kOps)); t.seed = r.chance(1, 3) ? common : r.u64(); t.pause = r.chance(1, 3) ? int(r.below(60)) : 0; t.shared = r.chance(1, 2); v.push_back(t); hh.add(t.kind).add(t.shared); }
  // A font manager and a codec list shared by all threads.
  BLFontManager fm; fm.create(); int fmode = int(r.below(3)); bool last = r.chance(1, 2); bool cleanup = r.chance(1, 8);
  std::vector<Sh*> own(nt); for (auto& o : own) o = new Sh(*s);
  std::atomic<int> go{0}; std::atomic<int> alive{nt}; std::vector<std::thread> th; std::vector<std::string> err(nt); std::vector<BLUniqueId> ids(nt);
  const Sh* shared = s;
  for (int t = 0; t < nt; t++) th.emplace_back([&, t]() {
    go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < nt) sched_yield();
    try {
      for (auto& st : plan[t]) {
        for (volatile int z = 0; z < st.pause * 20; z = z + 1) {} if (st.pause > 50) sched_yield();
        bool sh = st.shared && !last; st.got = op(st.kind, sh ? *shared : *own[t], Rng(st.seed), mt);
      }
      if (fmode) { BLFontFace mine; mine.create_from_data(own[t]->fd, 0); ids[t] = mine.unique_id(); BLFontManager m2(fm); if (m2.add_face(fmode == 1 ? own[t]->face : mine) != BL_SUCCESS) err[t] = "add_face failed"; BLFontFace q; BLString fam(own[t]->face.family_name()); if (m2.query_face(fam.view(), q) != BL_SUCCESS || !q.is_valid()) err[t] = "the family of an added face is not found"; BLArray<BLFontFace> fs; m2.query_faces_by_family_name(fam.view(), fs); for (auto& f : fs) if (f.glyph_count() != own[t]->face.glyph_count()) err[t] = "listing returned a foreign face"; }
      if (cleanup && t == 0) bl_runtime_cleanup(BL_RUNTIME_CLEANUP_EVERYTHING);
      if (!last) alive.fetch_sub(1, std::memory_order_relaxed);
      delete own[t];
    } catch (const Violation&) { err[t] = "violation"; }
  });
  if (last) { delete s; s = nullptr; } // Threads drop the last references.
  for (auto& x : th) x.join();
  if (s) delete s;
  for (auto& e : err) VH_CHECK(e.empty(), "manager", "%s", e.c_str());
  if (fmode == 2) for (int a = 0; a < nt; a++) for (int b = 0; b < a; b++) VH_CHECK(ids[a] != ids[b], "unique-id", "two faces created by two threads have the same unique id");
  if (fmode) VH_CHECK(fm.family_count() == 1 && fm.face_count() == size_t(fmode == 1 ? 1 : nt), "manager-count", "%zu families and %zu faces after %d threads added a face of the same family and order", fm.family_count(), fm.face_count(), nt);
  // Every result must be the one a single thread gets with equal private values.
  Sh ref; build(Rng(bseed), ref); uint64_t ops = 0;
  for (int t = 0; t < nt; t++) for (auto& st : plan[t]) { st.want = op(st.kind, ref, Rng(st.seed), false); ops++; VH_CHECK(st.want == st.got, (std::string("value:") + kNames[st.kind]).c_str(), "thread %d of %d observed another result of %s (%s) than a single thread", t, nt, kNames[st.kind], st.shared && !last ? "shared object" : "shared implementation"); count((std::string("op_") + kNames[st.kind]).c_str()); }
  count("threads", nt); count("operations", ops); if (mt) count("cases_with_async_contexts"); if (last) count("last_reference_dropped_by_thread"); if (fmode) count("manager_cases"); if (cleanup) count("cleanup_cases"); distinct(hh.add(nt).add(mt).h);
  if (st().cur < 3) sample("%d threads x %d operations, first kind %s, async %d, last reference in thread %d", nt, steps, kNames[plan[0][0].kind], mt, last);
}
void vh_finish() {}
