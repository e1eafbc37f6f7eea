// P34: scaled images against the filter evaluated in double precision.
struct P34Taps { std::vector<int> pos; std::vector<double> w; bool tie = false; };
static double p34_filter(int f, double t) { switch (f) { case 1: return t <= 0.5 ? 1 : 0; case 2: return t < 1 ? 1 - t : 0; case 3: return t < 1 ? (t * 0.5 - 1) * t * t + 2.0 / 3 : t < 2 ? (2 - t) * (2 - t) * (2 - t) / 6 : 0; default: return t == 0 ? 1 : t <= 2 ? sin(M_PI * t) * sin(M_PI * t / 2) / (M_PI * t * M_PI * t / 2) : 0; } }
static P34Taps p34_taps(int f, int S, int D, int i) {
  P34Taps q; double sc = double(D) / S, fac = std::min(1.0, sc), rad = (f >= 3 ? 2.0 : 1.0) / fac, c = (i + 0.5) / sc - 0.5, sum = 0; std::vector<double> w(size_t(S), 0.0); int a = S, b = -1;
  for (int j = int(floor(c - rad)); j <= int(ceil(c + rad)); j++) { double t = fabs(c - j) * fac; if (f == 1 && fabs(t - 0.5) < 1e-9) q.tie = true; double v = p34_filter(f, t); if (v == 0) continue; int k = std::min(S - 1, std::max(0, j)); w[size_t(k)] += v; sum += v; a = std::min(a, k); b = std::max(b, k); }
  for (int k = a; k <= b; k++) { q.pos.push_back(k); q.w.push_back(w[size_t(k)] / sum); } return q;
}
struct P34Img { int w, h, n; std::vector<double> v, e; std::vector<uint8_t> tie; P34Img(int w_, int h_, int n_) : w(w_), h(h_), n(n_), v(size_t(w_) * h_ * n_), e(v.size()), tie(size_t(w_) * h_) {} size_t at(int x, int y) const { return (size_t(y) * w + x) * n; } };
static P34Img p34_pass(const P34Img& s, int f, bool vert, int D, bool prgb) {
  P34Img o(vert ? s.w : D, vert ? D : s.h, s.n); int S = vert ? s.h : s.w;
  for (int i = 0; i < D; i++) { P34Taps q = p34_taps(f, S, D, i);
    for (int k = 0; k < (vert ? s.w : s.h); k++) { size_t d = vert ? o.at(k, i) : o.at(i, k); bool tie = q.tie; double ea = 0;
      for (int c = 0; c < s.n; c++) { double v = 0, e = 0, tv = 0, prev = 0; for (size_t j = 0; j < q.pos.size(); j++) { size_t p = vert ? s.at(k, q.pos[j]) : s.at(q.pos[j], k); if (s.tie[p / size_t(s.n)]) tie = true; v += q.w[j] * s.v[p + c]; e += fabs(q.w[j]) * s.e[p + c] + (j ? 0.7 / 256 * s.e[p + c] : 0); if (j) tv += fabs(s.v[p + c] - prev); prev = s.v[p + c]; }
        v = std::min(255.0, std::max(0.0, v)); e += 0.5001 + 0.7 / 256 * tv; if (prgb) { if (c == 0) ea = e; else { v = std::min(v, o.v[d]); e = std::max(e, ea); } } o.v[d + c] = v; o.e[d + c] = e; }
      o.tie[d / size_t(s.n)] = tie; } }
  return o;
}
static void case_p34(Rng& r) {
  BLFormat f = rnd_format(r); bool big = r.chance(1, 30), huge = r.chance(1, 60); auto dim = [&]() { return 1 + int(r.skew(big ? 250 : 40)); }; int w = dim(), h = dim(), W = dim(), H = dim(); if (huge) { (r.chance(1, 2) ? w : h) = 300 + int(r.below(5000)); if (w > 299 && r.chance(3, 4)) W = 1 + int(r.below(12)); if (h > 299 && r.chance(3, 4)) H = 1 + int(r.below(12)); if (w > 299) h = 1 + h % 5, H = 1 + H % 6; else w = 1 + w % 5, W = 1 + W % 6; } if (r.chance(1, 8)) W = w; if (r.chance(1, 8)) H = h; if (r.chance(1, 10)) { int k = 1 + int(r.below(4)); W = std::min(400, w * k); H = std::min(400, h * k); }
  int flt = 1 + int(r.below(4)); Ext s; s.create(r, w, h, f); int kind = int(r.below(6)); uint32_t base = rnd_prgb(r), px = f == BL_FORMAT_A8 ? base >> 24 : f == BL_FORMAT_XRGB32 ? base | 0xFF000000u : base; double ax = r.dbl(-1, 1), ay = r.dbl(-1, 1);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = px; if (kind == 1) { uint32_t q = rnd_prgb(r); v = f == BL_FORMAT_A8 ? q >> 24 : f == BL_FORMAT_XRGB32 ? q | 0xFF000000u : q; } else if (kind == 2 || kind == 5) { double t = 0.5 + 0.5 * (ax * (x + 0.5) / w + ay * (y + 0.5) / h); uint32_t k = uint32_t(255 * std::min(1.0, std::max(0.0, t))); v = f == BL_FORMAT_A8 ? k : kind == 5 ? (f == BL_FORMAT_PRGB32 ? k << 24 | k << 16 | k / 2 << 8 : 0xFF000000u | k << 16 | (255 - k) << 8 | k / 2) : 0xFF000000u | k << 16 | (255 - k) << 8 | 77; } else if (kind == 3) v = r.chance(1, 9) ? (f == BL_FORMAT_A8 ? 255u : 0xFFFFFFFFu) : f == BL_FORMAT_XRGB32 ? 0xFF000000u : 0; else if (kind == 4) v = (x ^ y) & 1 ? (f == BL_FORMAT_A8 ? 255u : 0xFFFFFFFFu) : f == BL_FORMAT_XRGB32 ? 0xFF000000u : 0; s.set(x, y, v); }
  s.snapshot(); BLImage plain; VH_OK(plain.assign_deep(s.img), "deep"); char d[200]; snprintf(d, sizeof d, "scale %dx%d to %dx%d filter %d format %d kind %d (%08X)", w, h, W, H, flt, int(f), kind, px); if (st().verbose) { printf("case %llu: %s\n", (unsigned long long)g_case, d); fflush(stdout); }
  if (r.chance(1, 15)) { // Rejected arguments leave the destination as it was.
    static const int B[] = {0, -1, 70000, INT_MAX, INT_MIN, 65536}; BLImage o(3, 2, BL_FORMAT_A8), o2(o); bool bf = r.chance(1, 3); int bw = bf || r.chance(1, 2) ? W : B[r.below(6)], bh = bf || bw != W ? H : B[r.below(6)]; BLResult x = BLImage::scale(o, s.img, BLSizeI(bw, bh), BLImageScaleFilter(bf ? (r.chance(1, 2) ? 0u : r.chance(1, 2) ? 5u : 0xFFFFFFFFu) : uint32_t(flt))); VH_CHECK(x != BL_SUCCESS && o == o2, "rejected", "%s: size %d x %d, filter valid %d returned %u or changed the destination", d, bw, bh, !bf, x); count("rejected"); }
  int mode = int(r.below(5)); BLImage o, keep(plain); BLResult x;
  switch (mode) { case 0: x = BLImage::scale(o, s.img, BLSizeI(W, H), BLImageScaleFilter(flt)); break; case 1: o = plain; x = BLImage::scale(o, o, BLSizeI(W, H), BLImageScaleFilter(flt)); break; case 2: o = plain; x = BLImage::scale(o, plain, BLSizeI(W, H), BLImageScaleFilter(flt)); break; case 3: o.create(W, H, f); x = BLImage::scale(o, plain, BLSizeI(W, H), BLImageScaleFilter(flt)); break; default: o.create(5, 4, BL_FORMAT_A8); x = BLImage::scale(o, s.img, BLSizeI(W, H), BLImageScaleFilter(flt)); }
  VH_CHECK(x == BL_SUCCESS, "error", "%s (mode %d) returned %u", d, mode, x); VH_CHECK(o.width() == W && o.height() == H && o.format() == f, "size", "%s (mode %d) gave %dx%d format %d", d, mode, o.width(), o.height(), int(o.format()));
  int qx, qy; VH_CHECK(!s.changed_outside(0, 0, 0, 0, qx, qy), "source-changed", "%s changed its source", d); BLImageData kd, od; VH_OK(keep.get_data(&kd), "data"); VH_OK(o.get_data(&od), "data"); for (int y = 0; y < h; y++) VH_CHECK(memcmp((const char*)kd.pixel_data + y * kd.stride, s.row(y), size_t(w) * bpp(f)) == 0, "source-changed", "%s (mode %d) changed a copy of its source", d, mode);
  if (mode == 0 || mode == 4) { BLImage o2; VH_OK(BLImage::scale(o2, plain, BLSizeI(W, H), BLImageScaleFilter(flt)), "scale"); BLImageData q; VH_OK(o2.get_data(&q), "data"); for (int y = 0; y < H; y++) VH_CHECK(memcmp((const char*)q.pixel_data + y * q.stride, (const char*)od.pixel_data + y * od.stride, size_t(W) * bpp(f)) == 0, "layout", "%s: row %d depends on the source's stride", d, y); count("layouts"); }
  int n = f == BL_FORMAT_A8 ? 1 : f == BL_FORMAT_PRGB32 ? 4 : 3; P34Img m(w, h, n); auto split = [&](uint32_t v, double* c) { if (n == 1) c[0] = v; else if (n == 4) for (int i = 0; i < 4; i++) c[i] = v >> (24 - 8 * i) & 255; else for (int i = 0; i < 3; i++) c[i] = v >> (16 - 8 * i) & 255; };
  for (int y = 0; y < h; y++) for (int xx = 0; xx < w; xx++) split(s.get(xx, y), &m.v[m.at(xx, y)]); if (W != w) m = p34_pass(m, flt, false, W, n == 4); if (H != h) m = p34_pass(m, flt, true, H, n == 4);
  uint64_t judged = 0, tight = 0, ties = 0; for (int y = 0; y < H; y++) for (int xx = 0; xx < W; xx++) { uint32_t v; const uint8_t* p = (const uint8_t*)od.pixel_data + y * od.stride + xx * bpp(f); if (n == 1) v = *p; else memcpy(&v, p, 4); size_t at = m.at(xx, y); if (m.tie[at / size_t(n)]) { ties++; continue; } double c[4]; split(v, c); judged++; if (n == 3) VH_CHECK(v >> 24 == 255, "alpha", "%s: pixel (%d,%d) is %08X, alpha isn't 255", d, xx, y, v);
      for (int i = 0; i < n; i++) { if (m.e[at + i] < 2) tight++; VH_CHECK(fabs(c[i] - m.v[at + i]) <= m.e[at + i] + 0.001, "pixel", "%s (mode %d): pixel (%d,%d) is %08X, component %d should be %.3f +- %.3f", d, mode, xx, y, v, i, m.v[at + i], m.e[at + i]); if (kind == 0) VH_CHECK(v == px, "constant", "%s: pixel (%d,%d) is %08X, the source is constant", d, xx, y, v); if (n == 4) VH_CHECK(c[i] <= c[0], "premultiplied", "%s: pixel (%d,%d) is %08X", d, xx, y, v); } }
  if (W == w && H == h) count("same size"); if (kind == 0) count("constant"); count(flt == 1 ? "nearest" : flt == 2 ? "bilinear" : flt == 3 ? "bicubic" : "lanczos"); if (W > w || H > h) count("up"); if (W < w || H < h) count("down"); if (w > 200 * W || h > 200 * H) count("more than 200 times"); count("pixels judged", judged); count("components within 2 levels", tight); count("ties skipped", ties); evals(judged); Hash hs; hs.add(w).add(h).add(W).add(H).add(flt).add(int(f)).add(kind).add(px); distinct(hs.h); sample("%s", d);
}
