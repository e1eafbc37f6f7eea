// P10: random histories of many objects with many owners; when the last owner is gone, nothing is left.
#include <dirent.h>
namespace {
int open_fds() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
int mapped_files() { int n = 0; if (FILE* f = fopen("/proc/self/maps", "r")) { char l[600]; while (fgets(l, sizeof l, f)) n += strstr(l, ".ttf") || strstr(l, ".otf") || strstr(l, ".png"); fclose(f); } return n; }

// One owner: all kinds of values, values that contain others, and a rendering context.
struct H : S { BLVar v, v2; BLArray<BLVar> va; BLArray<BLImage> ia; BLArray<BLPattern> pa; BLArray<BLGradient> ga; BLArray<BLPath> ppa; BLArray<BLArray<BLString>> aa; BLFontData fd2; BLGlyphBuffer gb2; BLImage target; BLContext ctx; BLImageCodec codec; BLImageDecoder dec; BLImageEncoder enc; };

template<class T> void own(Rng& r, T& a, T& b) { switch (r.below(6)) { case 0: case 1: a = b; break; case 2: a = std::move(b); break; case 3: a.swap(b); break; case 4: a.reset(); break; default: { T t(b); T u(std::move(t)); a = u; break; } } }
template<> void own(Rng& r, BLGlyphBuffer& a, BLGlyphBuffer& b) { if (r.chance(1, 3)) a.reset(); else if (r.chance(1, 2)) { BLGlyphBuffer t(std::move(b)); } else { a.set_utf8_text("moved"); } }
template<> void own(Rng& r, BLVar& a, BLVar& b) { switch (r.below(5)) { case 0: case 1: a.assign(b); break; case 2: a.assign(std::move(b)); break; case 3: a.swap(b); break; default: a.reset(); } }
template<> void own(Rng& r, BLStrokeOptions& a, BLStrokeOptions& b) { if (r.chance(1, 2)) a = b; else a = std::move(b); }
// An array of objects takes, replaces and drops items.
template<class T> void items(Rng& r, BLArray<T>& a, BLArray<T>& o, const T& v) {
  switch (r.below(11)) {
    case 0: case 1: case 2: a.append(v); break; case 3: if (a.size()) a.remove(r.below(a.size())); break; case 4: a.insert(r.below(a.size() + 1), v); break; case 5: if (a.size()) a.replace(r.below(a.size()), v); break;
    case 6: a.resize(r.below(6), v); break; case 7: if (a.size()) { size_t i = r.below(a.size()), n = 1 + r.below(a.size() - i); a.remove(BLRange{i, i + n}); } break;
    case 8: if (r.chance(1, 2)) a.append_data(o.view()); else a.insert_data(r.below(a.size() + 1), o.view()); break; case 9: if (a.size()) { size_t i = r.below(a.size()), n = r.below(a.size() - i + 1); a.replace_data(BLRange{i, i + n}, o.data(), o.size()); } else { own(r, a, o); } break;
    default: switch (r.below(6)) { case 0: a.clear(); break; case 1: a.assign_deep(o); break; case 2: a.shrink(); break; case 3: a.reserve(r.below(20)); break; case 4: a.truncate(r.below(4)); break; default: { T* d = nullptr; if (a.make_mutable(&d) == BL_SUCCESS && a.size()) { T t(v); d[r.below(a.size())] = t; } } } }
  if (a.size() > 24) a.truncate(8);
}
void draw(H& h, H& g, Rng& r) {
  int w = int(r.below(16)); if (st().verbose) fprintf(stderr, "    draw %d\n", w);
  switch (w) {
    case 0: h.ctx.set_fill_style(g.g); break; case 1: h.ctx.set_fill_style(g.pat); break; case 2: h.ctx.set_stroke_style(g.pat2); break; case 3: h.ctx.set_fill_style(g.v); break; case 4: h.ctx.set_stroke_options(g.so); break; case 5: h.ctx.save(); break; case 6: h.ctx.restore(); break;
    case 7: h.ctx.fill_path(g.p); break; case 8: h.ctx.stroke_path(g.p); break; case 9: h.ctx.blit_image(BLPoint(2, 3.5), g.im2); break; case 10: if (g.im2.format() == BL_FORMAT_A8) h.ctx.fill_mask(r.chance(1, 2) ? BLPoint(3, 4) : BLPoint(3.5, 4), g.im2); break; case 11: if (g.font.is_valid()) h.ctx.fill_utf8_text(BLPoint(2, 30), g.font, "Afg AV a longer one"); break;
    case 12: { BLVar t; if (r.chance(1, 2)) h.ctx.get_fill_style(t); else h.ctx.get_stroke_style(t); g.v.assign(t); break; } case 13: h.ctx.fill_rect(BLRect(2, 3, 20, 20.5)); break; case 14: h.ctx.swap_styles(BLContextStyleSwapMode(r.below(2))); break; default: h.ctx.flush(r.chance(1, 2) ? BL_CONTEXT_FLUSH_SYNC : BL_CONTEXT_FLUSH_NO_FLAGS);
  }
}
H* copy_of(const H& a) { H* h = new H(); h->str = a.str; h->a = a.a; h->sa = a.sa; h->p = a.p; h->g = a.g; h->im = a.im; h->im2 = a.im2; h->pat = a.pat; h->pat2 = a.pat2; h->bs = a.bs; h->ba = a.ba; h->v.assign(a.v); h->va = a.va; h->ia = a.ia; h->pa = a.pa; h->aa = a.aa; h->face = a.face; h->font = a.font; h->fm = a.fm; h->fs = a.fs; h->vs = a.vs; h->fd = a.fd; h->so = a.so; h->ctx = a.ctx; h->target = a.target; return h; }
void p10_case(uint64_t id, Rng& r, uint64_t& hist) {
  // The owners; one that rendering threads still read from may not be written, so contexts only read owners through calls that retain.
  std::vector<std::unique_ptr<H>> hs; int nh = int(r.range(2, 4)); uint32_t kinds = uint32_t(r.u64());
  for (int i = 0; i < nh; i++) { hs.emplace_back(new H()); for (int g = 0; g < 9; g++) if (r.chance(1, 2)) build(Rng(r.u64()), *hs[size_t(i)], g); }
  std::vector<std::thread> th; int steps = int(r.range(10, 120)); bool faults = r.chance(1, 3); (void)kinds; Hash hh;
  Rng& r0 = r; for (int k = 0; k < steps; k++) {
    Rng r(r0.u64()); static const char* skip = getenv("VH_SKIP"); if (skip && strstr(skip, ("," + std::to_string(k) + ",").c_str())) continue; // To reduce a history by hand.
   
    H& a = *hs[r.below(hs.size())]; H& b = *hs[r.below(hs.size())]; int act = int(r.below(30)); hh.add(act); count("p10_steps");
    bool inj = faults && r.chance(1, 4); if (inj) { led::n = 0; led::at = long(r.below(6)); led::forever = r.chance(1, 3); led::failed = 0; led::inject = true; }
    if (st().verbose) fprintf(stderr, "  step %d: act %d%s on %d %d\n", k, act, inj ? " with faults" : "", int(std::find_if(hs.begin(), hs.end(), [&](auto& x) { return x.get() == &a; }) - hs.begin()), int(std::find_if(hs.begin(), hs.end(), [&](auto& x) { return x.get() == &b; }) - hs.begin()));
    switch (act) {
      case 0: own(r, a.str, r.chance(1, 3) ? a.str2 : b.str); break; case 1: own(r, a.a, b.a); own(r, a.sa, b.sa2); break; case 2: own(r, a.p, r.chance(1, 2) ? b.p2 : b.p); break; case 3: own(r, a.g, b.g); own(r, a.g2, b.g); break; case 4: own(r, a.bs, b.bs); own(r, a.ba, b.ba); break;
      case 5: own(r, a.im, b.im); own(r, a.im2, b.im); own(r, a.out, b.im2); break; case 6: own(r, a.pat, b.pat); own(r, a.pat2, b.pat); break; case 7: own(r, a.fs, b.fs); own(r, a.vs, b.vs); break; case 8: own(r, a.face, b.face); own(r, a.font, b.font); own(r, a.fm, b.fm); break; case 9: own(r, a.gb, b.gb2); own(r, a.fd, b.fd2); if (r.chance(1, 3)) own(r, a.so, b.so); break;
      case 10: switch (r.below(8)) { case 0: a.v = b.str; break; case 1: a.v = b.pat; break; case 2: a.v = b.g; break; case 3: a.v = b.im; break; case 4: a.v = b.p; break; case 5: a.v = b.va; break; case 6: a.v = b.font; break; default: a.v = b.bs; } break;
      case 11: own(r, a.v, b.v); own(r, a.v2, b.v); if (r.chance(1, 3)) a.v = BLRgba32(r.u32()); break;
      case 12: items(r, a.va, b.va, r.chance(1, 2) ? b.v : a.v2); break; case 13: items(r, a.ia, b.ia, b.im); break; case 14: items(r, a.pa, b.pa, b.pat); items(r, a.ga, b.ga, b.g); break; case 15: items(r, a.ppa, b.ppa, b.p); items(r, a.aa, b.aa, b.sa); break; case 16: items(r, a.sa, b.sa, b.str); items(r, a.faces, b.faces, b.face); break;
      case 17: own(r, a.va, b.va); own(r, a.ia, b.ia); own(r, a.aa, b.aa); own(r, a.pa, b.pa); break;
      case 18: if (a.va.size()) { const BLVar& x = a.va[r.below(a.va.size())]; if (x.is_pattern()) a.pat = x.as<BLPattern>(); else if (x.is_image()) a.im2 = x.as<BLImage>(); else if (x.is_array()) a.v.assign(x); } break;
      case 19: rnd_img(r, a.im2); if (led::inject.load()) break; a.pat.create(a.im2); break;
      case 20: { size_t n = 1 + r.below(30); uint32_t* d = (uint32_t*)ext_alloc(n * 4); memset(d, 7, n * 4); if (a.a.assign_external_data(d, n, n, r.chance(1, 2) ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ, ext_free, d) != BL_SUCCESS) { __real_free(d); g_ext.live--; } break; }
      case 21: case 22: {  if (a.ctx.is_valid() && r.chance(1, 3)) { if (r.chance(1, 2)) a.ctx.end(); else if (r.chance(1, 2)) a.ctx.reset(); else a.ctx = b.ctx; } if (!a.ctx.is_valid()) { BLImage t; if (t.create(20 + int(r.below(30)), 40, BL_FORMAT_PRGB32) == BL_SUCCESS) { a.target = t; t.reset(); BLContextCreateInfo ci{}; ci.thread_count = uint32_t(r.chance(1, 2) ? r.below(4) : 0); if (ci.thread_count && r.chance(1, 3)) ci.command_queue_limit = 4; if (ci.thread_count && r.chance(1, 4)) ci.flags = BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL; a.ctx.begin(a.target, ci); if (st().verbose) fprintf(stderr, "    begin threads %u limit %u flags %u im2 %d %dx%d\n", ci.thread_count, ci.command_queue_limit, ci.flags, int(b.im2.format()), b.im2.width(), b.im2.height()); } } for (int i = 0; i < 6 && a.ctx.is_valid(); i++) draw(a, b, r); count("p10_contexts"); break; }
      case 23: { // The last reference may be dropped by another thread.
        auto* p = new std::tuple<BLString, BLArray<uint32_t>, BLPath, BLGradient, BLPattern, BLImage, BLBitSet, BLVar, BLArray<BLVar>, BLFont, BLFontFace, BLArray<BLString>>(a.str, a.a, a.p, a.g, a.pat, a.im, a.bs, a.v, a.va, a.font, a.face, a.sa);
        if (r.chance(1, 2)) { a.str.reset(); a.a.reset(); a.p.reset(); a.g.reset(); a.pat.reset(); a.im.reset(); a.bs.reset(); a.v.reset(); a.va.reset(); a.sa.reset(); }
        bool w = led::inject; led::inject = false; if (th.size() < 6) { th.emplace_back([p] { delete p; }); count("p10_thread_drops"); } else delete p; led::inject = w; break; }
      case 24: { // A file that is mapped into memory.
        BLFontFace f; BLFontData d; if (d.create_from_file((st().corpus + (r.chance(1, 2) ? "/glyfTest.ttf" : "/CFFTest.otf")).c_str(), r.chance(1, 2) ? BL_FILE_READ_MMAP_ENABLED : BL_FILE_READ_NO_FLAGS) == BL_SUCCESS) { a.fd2 = d; if (f.create_from_data(d, 0) == BL_SUCCESS) { a.face = f; a.font.create_from_face(f, 12.0f); } } count("p10_files"); break; }
      case 25: { if (a.codec.find_by_name(r.chance(1, 2) ? "PNG" : r.chance(1, 2) ? "JPEG" : "QOI") == BL_SUCCESS) { if (r.chance(1, 2)) a.codec.create_decoder(&a.dec); else a.codec.create_encoder(&a.enc); } if (a.dec.is_valid()) { BLImage t; a.dec.read_frame(t, g_img[0]); a.out = t; } own(r, a.dec, b.dec); own(r, a.enc, b.enc); own(r, a.codec, b.codec); break; }
      case 26: { if (r.chance(1, 3)) hs.emplace_back(copy_of(*hs[0])); else if (hs.size() > 1 && r.chance(1, 3)) { size_t i = r.below(hs.size()); led::inject = false; hs.erase(hs.begin() + long(i)); } break; }
      default: { size_t o = r.below(g_ops.size()); const Op& op = g_ops[o]; if (op.grp == 9 || op.grp == 10) { if (!a.im.is_empty() && r.chance(1, 4)) { BLImage t; if (t.create(30, 30, BL_FORMAT_PRGB32) == BL_SUCCESS) render(t, a, Rng(r.u64()), op.grp == 10 ? 2 : 0); } break; } if (st().verbose) fprintf(stderr, "    op %s\n", op.name); op.fn(a, r); count("p10_ops"); hh.add(o); }
    }
    led::inject = false; led::at = -1; if (inj && led::failed > 0) count("p10_faults");
    if (k % 16 == 0) for (auto& h : hs) for (int g = 0; g < 9; g++) digest(*h, g); // Every value is still readable.
  }
  while (hs.size()) { size_t i = r.below(hs.size()); hs.erase(hs.begin() + long(i)); }
  for (auto& t : th) t.join();
  hist = hh.h; (void)id;
}
void p10(uint64_t id, Rng& r) {
  int fds = open_fds(), maps = mapped_files(); uint64_t hist = 0, t0 = led::total;
  led::begin(); p10_case(id, r, hist); uint64_t blocks = led::total - t0; count("p10_external", uint64_t(g_ext.live.load()));
  check_ledger("history", "");
  int f2 = open_fds(), m2 = mapped_files(); VH_CHECK(f2 == fds, "descriptors", "%d open files before a history, %d after", fds, f2); VH_CHECK(m2 == maps, "mappings", "%d mapped files before a history, %d after", maps, m2);
  count("p10_histories"); count("p10_blocks", blocks); distinct(hist); evals(); if (id < 2) sample("a history of %llu blocks, all released", (unsigned long long)blocks);
}
}
