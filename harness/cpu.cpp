// P35: the same workload in one process per CPU feature level; all results must be identical.
#include <climits>
#include "vh.h"
#include <zlib.h>
#include <sys/wait.h>
#include <signal.h>
#include <blend2d/compression/checksum_p.h>
#include <blend2d/compression/deflatedecoder_p.h>
#include <blend2d/compression/deflateencoder_p.h>
#include "scene.inc"
using namespace vh;
#define VH_NO_MAIN 1
namespace pix { 
#define vh_init pix_init
#define vh_case pix_case
#define vh_finish pix_finish
#include "pixels.cpp"
#undef vh_init
#undef vh_case
#undef vh_finish
}
namespace cod {
#define vh_init cod_init
#define vh_case cod_case
#define vh_finish cod_finish
#include "codecs.cpp"
#undef vh_init
#undef vh_case
#undef vh_finish
}
using namespace scene;
typedef std::vector<std::pair<std::string, uint64_t>> Digest;
struct Rec { Digest d; void add(const std::string& l, const void* p, size_t n) { d.push_back({l, hash_bytes(p, n)}); } void val(const std::string& l, uint64_t v) { d.push_back({l, v}); }
  void image(const std::string& l, const BLImage& im) { BLImageData dt; if (im.get_data(&dt) != BL_SUCCESS) { val(l, 1); return; } uint64_t h = 77; for (int y = 0; y < dt.size.h; y++) h = hash_bytes((const uint8_t*)dt.pixel_data + y * dt.stride, size_t(dt.size.w) * (dt.format == BL_FORMAT_A8 ? 1 : 4), h); val(l, h); }
  void path(const std::string& l, const BLPath& p) { BLPathView v = p.view(); uint64_t h = hash_bytes(v.command_data, v.size); for (size_t i = 0; i < v.size; i++) { double q[2] = {v.vertex_data[i].x + 0.0, v.vertex_data[i].y + 0.0}; if (v.command_data[i] == BL_PATH_CMD_CLOSE) continue; h = hash_bytes(q, 16, h); } val(l, h); } };

static void w_codec(Rng& r, Rec& R) { const char* codec; std::string d; cod::Bytes f = cod::any_file(r, codec, d); if (r.chance(1, 3)) { cod::mutate(r, f, d, codec); d += " damaged"; } cod::Outcome o = cod::flow(f, codec, d.c_str(), 0xA5, false); for (size_t i = 0; i < o.v.size(); i++) R.val("decoding " + d + " value " + std::to_string(i), o.v[i]); }
static void w_encode(Rng& r, Rec& R) { Ext e; BLFormat f = rnd_format(r); e.create(r, 1 + int(r.skew(150)), 1 + int(r.skew(60)), f); fill_random(r, e); if (r.chance(1, 2)) for (int y = 0; y < e.h; y++) for (int x = 0; x < e.w; x++) if (x % 5) e.set(x, y, e.get(x - 1, y)); static const char* cs[] = {"PNG", "BMP", "QOI"}; const char* cn = r.pick(cs); BLImageEncoder enc; VH_OK(cod::codec_of(cn).create_encoder(&enc), "create-encoder"); if (*cn == 'P') enc.set_property("compression", BLVar(uint64_t(r.below(13)))); BLArray<uint8_t> out; R.val("encode result", enc.write_frame(out, e.img)); R.add(std::string("encoded ") + cn, out.data(), out.size()); BLImage back; R.val("decode result", back.read_from_data(out.data(), out.size())); R.image("decoded again", back); }
static void w_deflate(Rng& r, Rec& R) { namespace D = bl::Compression::Deflate; namespace C = bl::Compression::Checksum; size_t n = 1 + r.skew(50000); std::vector<uint8_t> d; uint32_t alpha = 1 + uint32_t(r.skew(255)); while (d.size() < n) { if (d.size() > 4 && r.chance(1, 4)) { size_t dist = 1 + r.below(std::min<size_t>(d.size(), r.chance(1, 3) ? 32768 : 60)), len = 3 + r.skew(300); while (len--) d.push_back(d[d.size() - dist]); } else d.push_back(uint8_t(r.below(alpha))); } d.resize(n);
  size_t off = r.below(40), len = n - std::min(off, n - 1); R.val("adler32", C::adler32(d.data() + n - len, len)); R.val("crc32", C::crc32(d.data() + n - len, len));
  D::Encoder e; bool zl = r.chance(1, 2); uint32_t level = uint32_t(r.below(13)); VH_OK(e.init(zl ? D::FormatType::kZlib : D::FormatType::kRaw, level), "init"); BLArray<uint8_t> a; R.val("compress result", e.compress(a, BL_MODIFY_OP_ASSIGN_FIT, BLDataView{d.data(), n})); R.add("compressed, level " + std::to_string(level), a.data(), a.size());
  std::vector<uint8_t> s(a.data(), a.data() + a.size()); if (r.chance(1, 3)) { int k = 1 + int(r.below(3)); while (k--) s[r.below(s.size())] = uint8_t(r.u32()); } BLArray<uint8_t> o; auto dec = std::make_unique<D::Decoder>(); dec->init(zl ? D::FormatType::kZlib : D::FormatType::kRaw); BLResult res = dec->decode(o, BLDataView{s.data(), s.size()}); R.val("decompress result", res); if (res == BL_SUCCESS) R.add("decompressed", o.data(), o.size()); }
static void w_pixels(Rng& r, Rec& R) { pix::Lay s = pix::gen_layout(r, false), d = pix::gen_layout(r, true); uint32_t w = 1 + uint32_t(r.skew(300)), h = 1 + uint32_t(r.below(4)); size_t gap = r.chance(1, 3) ? r.below(20) : 0, sb = (size_t(w) * s.depth + 7) / 8, db = (size_t(w) * d.depth + 7) / 8 + gap, off = r.below(20); std::vector<uint8_t> sm(off + sb * h), dm(off + db * h, 0x77); bool valid = !s.pre || s.idx;
  for (auto& b : sm) b = uint8_t(r.u32()); if (!valid) for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) { uint8_t* row = sm.data() + off + sb * y; uint32_t v = pix::get_word(s, row, x), ma = uint32_t(pix::maxv(s.size[3])), a = (v >> s.shift[3]) & ma; for (int i = 0; i < 3; i++) { if (!s.size[i]) continue; uint32_t m = uint32_t(pix::maxv(s.size[i])), c = (v >> s.shift[i]) & m, lim = uint32_t(uint64_t(a) * m / ma); if (c > lim) c = lim ? uint32_t(r.below(lim + 1)) : 0; v = (v & ~(m << s.shift[i])) | c << s.shift[i]; if (s.lum) { for (int j = 0; j < 3; j++) v = (v & ~(m << s.shift[j])) | c << s.shift[j]; break; } } pix::put_word(s, row, x, v); }
  BLPixelConverter pc; std::string l = s.str() + " -> " + d.str(); BLResult res = pc.create(d.info(), s.info()); R.val("create " + l, res); if (res != BL_SUCCESS) return; BLPixelConverterOptions o{}; o.gap = gap; R.val("convert " + l, pc.convert_rect(dm.data() + off, intptr_t(db), sm.data() + off, intptr_t(sb), w, h, &o)); R.add(l, dm.data(), dm.size()); }
static void w_font(Rng& r, Rec& R) { Gen g(r, 100, 100); add_fonts(g); VH_ASSUME(!g.fonts.empty()); BLFont& f = g.fonts[r.below(g.fonts.size())]; uint32_t n = f.face().glyph_count(); BLMatrix2D m = g.matrix(); char nm[64]; snprintf(nm, sizeof nm, "%s", f.face().family_name().data());
  for (int i = 0; i < 12; i++) { BLGlyphId id = BLGlyphId(r.below(n + 2)); BLPath p; BLResult res = r.chance(1, 2) ? f.get_glyph_outlines(id, m, p) : f.get_glyph_outlines(id, p); R.val("outline result", res); R.path("outline of " + std::string(nm) + " glyph " + std::to_string(id), p); }
  std::vector<BLGlyphId> ids; size_t k = 1 + r.below(40); for (size_t i = 0; i < k; i++) ids.push_back(BLGlyphId(r.below(n))); std::vector<BLBoxI> bx(k); std::vector<BLGlyphPlacement> pl(k); memset((void*)pl.data(), 0, k * sizeof(pl[0])); memset((void*)bx.data(), 0, k * sizeof(bx[0])); R.val("bounds result", f.get_glyph_bounds(ids.data(), sizeof(BLGlyphId), bx.data(), k)); R.add("glyph bounds", bx.data(), k * sizeof(bx[0])); R.val("advances result", f.get_glyph_advances(ids.data(), sizeof(BLGlyphId), pl.data(), k)); R.add("glyph advances", pl.data(), k * sizeof(pl[0]));
  std::string text; size_t tn = r.below(40); for (size_t i = 0; i < tn; i++) { uint32_t c = r.chance(1, 4) ? 0xA0 + uint32_t(r.below(0x500)) : 32 + uint32_t(r.below(95)); if (c < 128) text += char(c); else { text += char(0xC0 | c >> 6); text += char(0x80 | (c & 63)); } } BLGlyphBuffer gb; gb.set_utf8_text(text.data(), text.size()); R.val("shape", f.shape(gb)); R.add("shaped glyphs", gb.content(), gb.size() * 4); if (gb.placement_data()) R.add("placements", gb.placement_data(), gb.size() * sizeof(BLGlyphPlacement)); BLTextMetrics tm{}; R.val("text metrics", f.get_text_metrics(gb, tm)); R.add("metrics", &tm, sizeof tm); }
static void w_matrix(Rng& r, Rec& R) { Gen g(r, 100, 100); BLMatrix2D m = g.matrix(); if (r.chance(1, 6)) m.m[r.below(6)] = 0; if (r.chance(1, 3)) m = BLMatrix2D(r.dbl(-3, 3), 0, 0, r.dbl(-3, 3), r.dbl(-50, 50), 3); size_t n = r.skew(200), off = r.below(3); std::vector<double> a(2 * n + 8), b(2 * n + 8, 0.5); for (auto& v : a) v = r.chance(1, 2) ? r.dbl(-100, 100) : r.dbl(-1, 1) * pow(2, double(r.range(-30, 30))); R.val("map result", bl_matrix2d_map_pointd_array(&m, (BLPoint*)(b.data() + off), (const BLPoint*)(a.data() + r.below(3)), n)); for (auto& v : b) v += 0.0; char t[200]; snprintf(t, sizeof t, "points mapped by (%g %g %g %g %g %g)", m.m[0], m.m[1], m.m[2], m.m[3], m.m[4], m.m[5]); R.add(t, b.data(), b.size() * 8); R.val("matrix type", uint64_t(m.type())); BLMatrix2D q; if (BLMatrix2D::invert(q, m) == BL_SUCCESS) { for (auto& v : q.m) v += 0.0; R.add("inverse", q.m, sizeof q.m); }
  BLPath p = g.path(); R.val("transform path", p.transform(m)); R.path("transformed path", p); BLPath s; BLStrokeOptions so; so.width = r.dbl(0.1, 9); so.join = uint8_t(r.below(5)); R.val("stroke path", s.add_stroked_path(p, so, bl_default_approximation_options)); R.path("stroked path", s); BLBox bx; if (p.get_bounding_box(&bx) == BL_SUCCESS) R.add("bounding box", &bx, sizeof bx); }
static void w_scene(Rng& r, Rec& R) { int w = 1 + int(r.skew(150)), h = 1 + int(r.skew(80)); BLFormat f = rnd_format(r); Ext t; t.create(r, w, h, f); fill_random(r, t); Gen g(r, w, h); if (r.chance(1, 3)) add_fonts(g); BLContextCreateInfo ci{}; ci.thread_count = r.chance(1, 12) ? 2 : 0; BLContext c; VH_OK(c.begin(t.img, ci), "begin"); int n = 1 + int(r.skew(25));
  for (int i = 0; i < n; i++) { Op o = r.chance(3, 5) ? g.draw_op() : g.state_op(); BLResult x = o.f(c); if (x != 65543u) R.val("result of " + o.d, x); if (o.draws && r.chance(1, 2)) { c.flush(BL_CONTEXT_FLUSH_SYNC); uint64_t hh = 5; for (int y = 0; y < h; y++) hh = hash_bytes(t.row(y), size_t(w) * bpp(f), hh); R.val("pixels after " + o.d, hh); } }
  c.end(); uint64_t hh = 5; for (int y = 0; y < h; y++) hh = hash_bytes(t.row(y), size_t(w) * bpp(f), hh); R.val("pixels at the end", hh); }
static void w_scale(Rng& r, Rec& R) { Ext e; BLFormat f = rnd_format(r); e.create(r, 1 + int(r.skew(120)), 1 + int(r.skew(60)), f); fill_random(r, e); BLImage o; static const BLImageScaleFilter fs[] = {BL_IMAGE_SCALE_FILTER_NEAREST, BL_IMAGE_SCALE_FILTER_BILINEAR, BL_IMAGE_SCALE_FILTER_BICUBIC, BL_IMAGE_SCALE_FILTER_LANCZOS}; BLImageScaleFilter sf = r.pick(fs); R.val("scale result", BLImage::scale(o, e.img, BLSizeI(1 + int(r.skew(150)), 1 + int(r.skew(80))), sf)); R.image("scaled by filter " + std::to_string(sf), o); BLImage c(e.img); R.val("convert result", c.convert(rnd_format(r))); R.image("converted image", c); }
static void w_gradient(Rng& r, Rec& R) { Gen g(r, 80, 60); BLImage im(80, 4 + int(r.below(20)), r.chance(1, 3) ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32); BLContext c(im); c.clear_all(); BLGradient gr = g.gradient(); int n = int(r.skew(60)); for (int i = 0; i < n; i++) gr.add_stop(r.chance(1, 3) ? double(r.below(257)) / 256 : r.unit(), BLRgba64(r.u64())); if (r.chance(1, 3)) c.set_gradient_quality(BL_GRADIENT_QUALITY_DITHER); c.set_fill_style(gr); R.val("fill", c.fill_all()); c.end(); R.image("gradient with " + std::to_string(gr.size()) + " stops, type " + std::to_string(gr.type()), im); }
static const struct { const char* name; void (*f)(Rng&, Rec&); int weight; } kWork[] = {{"codecs", w_codec, 2}, {"encoders", w_encode, 1}, {"deflate", w_deflate, 1}, {"pixel conversions", w_pixels, 6}, {"fonts", w_font, 2}, {"geometry", w_matrix, 3}, {"scenes", w_scene, 5}, {"image scaling", w_scale, 1}, {"gradients", w_gradient, 3}};
static int pick_kind(uint64_t id) { int total = 0; for (auto& k : kWork) total += k.weight; int v = int(id % uint64_t(total)); for (int i = 0;; i++) { v -= kWork[i].weight; if (v < 0) return i; } }
static void run_work(uint64_t seed, int kind, Rec& R) { Rng r(seed); try { kWork[kind].f(r, R); } catch (const Violation&) { R.val("(monitor of another property fired)", 0); } }

struct Worker { uint32_t mask = 0; pid_t pid = 0; int in = -1, out = -1; };
static std::vector<Worker> g_w;
static bool xread(int fd, void* p, size_t n) { uint8_t* q = (uint8_t*)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } q += k; n -= size_t(k); } return true; }
static bool xwrite(int fd, const void* p, size_t n) { const uint8_t* q = (const uint8_t*)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } q += k; n -= size_t(k); } return true; }
static void start(Worker& w) {
  int a[2], b[2]; VH_ASSUME(pipe(a) == 0 && pipe(b) == 0); w.pid = fork(); VH_ASSUME(w.pid >= 0);
  if (w.pid == 0) { dup2(a[0], 100); dup2(b[1], 101); for (int fd = 3; fd < 64; fd++) close(fd); char m[32]; snprintf(m, sizeof m, "0x%x", w.mask); setenv("BL_VERIF_CPU_FEATURES", m, 1); setenv("VH_WORKER", "1", 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); execl("/proc/self/exe", "cpu", "--corpus", st().corpus.c_str(), "--scratch", st().scratch.c_str(), (char*)nullptr); _exit(99); }
  close(a[0]); close(b[1]); w.in = a[1]; w.out = b[0]; fcntl(w.in, F_SETFD, FD_CLOEXEC); fcntl(w.out, F_SETFD, FD_CLOEXEC);
}
void vh_init() {
  cod::cod_init(); signal(SIGPIPE, SIG_IGN);
  if (getenv("VH_WORKER")) { uint64_t q[2]; while (xread(100, q, 16)) { Rec R; run_work(q[0], int(q[1]), R); std::string o; for (auto& e : R.d) { char t[40]; snprintf(t, sizeof t, "%016llx ", (unsigned long long)e.second); o += t; for (char c : e.first) o += c == '\n' ? ' ' : c; o += '\n'; } uint64_t n = o.size(); if (!xwrite(101, &n, 8) || !xwrite(101, o.data(), n)) break; } _exit(0); }
  for (uint32_t m : {0x0u, 0x1u, 0x7u, 0xFu, 0x1Fu, 0x3Fu, 0x7Fu}) { Worker w; w.mask = m; g_w.push_back(w); } for (auto& w : g_w) start(w);
}
void vh_finish() { for (auto& w : g_w) { close(w.in); close(w.out); waitpid(w.pid, nullptr, 0); } }
void vh_case(uint64_t id, Rng& rng) {
  uint64_t q[2] = {rng.u64(), uint64_t(pick_kind(id / st().nshards))}; const char* kind = kWork[q[1]].name; std::string first; uint32_t fm = 0;
  for (auto& w : g_w) if (!xwrite(w.in, q, 16)) { waitpid(w.pid, nullptr, 0); start(w); xwrite(w.in, q, 16); }
  std::vector<std::string> res; for (auto& w : g_w) { uint64_t n = 0; std::string o; bool ok = xread(w.out, &n, 8) && n < (64u << 20); if (ok) { o.resize(n); ok = xread(w.out, &o[0], n); } if (!ok) { int stt = 0; waitpid(w.pid, &stt, 0); close(w.in); close(w.out); start(w); report("crashed", "%s: the process at CPU feature level 0x%x ended (status 0x%x)", kind, w.mask, stt); o = "crashed"; } res.push_back(o); }
  first = res[0]; fm = g_w[0].mask; size_t lines = size_t(std::count(first.begin(), first.end(), '\n')); count("results compared", lines * (res.size() - 1)); count(kind); distinct(hash_bytes(first.data(), first.size())); sample("%s: %zu results, %.80s", kind, lines, first.c_str() + std::min<size_t>(first.size(), 17));
  for (size_t i = 1; i < res.size(); i++) if (res[i] != first && res[i] != "crashed" && first != "crashed") { // First differing line.
      size_t a = 0; while (a < first.size() && a < res[i].size() && first[a] == res[i][a]) a++; size_t s = first.rfind('\n', a ? a - 1 : 0); s = s == std::string::npos || a == 0 ? 0 : s + 1; std::string la = first.substr(s, first.find('\n', s) - s), lb = res[i].substr(std::min(s, res[i].size())); lb = lb.substr(0, lb.find('\n')); report(kind, "level 0x%x: %.300s; level 0x%x: %.300s", fm, la.c_str(), g_w[i].mask, lb.c_str()); break; }
}
