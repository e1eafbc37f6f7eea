// P12: decompression against zlib on synthesized and damaged streams; P13: compression judged by zlib, checksums.
#include "vh.h"
#include <blend2d/compression/deflatedecoder_p.h>
#include <blend2d/compression/deflateencoder_p.h>
#include <blend2d/compression/checksum_p.h>
#include <zlib.h>
using namespace vh; namespace D = bl::Compression::Deflate; namespace C = bl::Compression::Checksum;
typedef std::vector<uint8_t> Bytes;

struct BitW { Bytes b; uint64_t w = 0; int n = 0; void put(uint32_t v, int k) { w |= uint64_t(v) << n; n += k; while (n >= 8) { b.push_back(uint8_t(w)); w >>= 8; n -= 8; } } void align() { if (n) put(0, 8 - n); } };
static const uint16_t LB[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}; static const uint8_t LX[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
static const uint16_t DB[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577}; static const uint8_t DX[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
struct Tok { bool m; uint16_t len, dist; uint8_t lit; };
// Complete prefix code lengths for the given symbols (random shape, depth up to maxd).
static void random_lengths(Rng& r, const std::vector<int>& syms, int maxd, std::vector<uint8_t>& lens) {
  if (syms.empty()) return; if (syms.size() == 1) { lens[syms[0]] = 1; return; }
  std::vector<int> d; int style = int(r.below(4));
  d.push_back(1); d.push_back(1);
  while (d.size() < syms.size()) {
    size_t k; if (style == 0) k = size_t(std::min_element(d.begin(), d.end()) - d.begin()); else if (style == 1) { k = d.size() - 1; if (d[k] >= maxd || r.chance(1, 10)) k = r.below(d.size()); } else k = r.below(d.size());
    if (d[k] >= maxd) k = size_t(std::min_element(d.begin(), d.end()) - d.begin());
    VH_ASSUME(d[k] < maxd); d[k]++; d.push_back(d[k]);
  }
  if (r.chance(3, 4)) for (size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[r.below(i)]);
  for (size_t i = 0; i < syms.size(); i++) lens[syms[i]] = uint8_t(d[i]);
}
static std::vector<uint32_t> codes_of(const std::vector<uint8_t>& lens) { // canonical, bit reversed
  std::vector<uint32_t> c(lens.size()); uint32_t code = 0;
  for (int l = 1; l <= 15; l++) { for (size_t i = 0; i < lens.size(); i++) if (lens[i] == l) { uint32_t v = 0; for (int k = 0; k < l; k++) v |= ((code >> k) & 1) << (l - 1 - k); c[i] = v; code++; } code <<= 1; }
  return c;
}
struct Gen {
  Rng& r; Bytes out; BitW w; uint64_t h = 0; uint32_t kinds = 0;
  Gen(Rng& r) : r(r) {}
  void block(bool last, size_t budget) {
    int type = int(r.below(5)); type = type == 0 ? 0 : type == 1 ? 1 : 2; kinds |= 1u << type; w.put(last, 1); w.put(type, 2);
    if (type == 0) { size_t n = r.chance(1, 6) ? 0 : std::min<size_t>(r.skew(65535), budget + 8); if (r.chance(1, 30)) n = 65535; w.align(); w.put(uint32_t(n), 16); w.put(uint32_t(~n & 0xffff), 16); bool same = r.chance(1, 2); for (size_t i = 0; i < n; i++) { uint8_t v = same ? uint8_t(i * 7) : uint8_t(r.u32()); out.push_back(v); w.put(v, 8); } return; }
    std::vector<Tok> t; size_t nt = r.skew(4000), made = 0; uint32_t alpha = r.chance(1, 5) ? 1 : uint32_t(r.skew(255)) + 1, base = uint32_t(r.below(256)); uint32_t pm = uint32_t(r.below(5)); bool nomatch = r.chance(1, 8), onlydist = r.chance(1, 6); uint32_t fixdist = uint32_t(1 + r.skew(32767));
    for (size_t i = 0; i < nt && made < budget; i++) {
      if (!nomatch && !out.empty() && r.below(6) < pm) { uint32_t maxd = uint32_t(std::min<size_t>(out.size(), 32768)), dist, len; static const uint16_t small[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65};
        if (onlydist) dist = fixdist; else switch (r.below(5)) { case 0: dist = r.pick(small); break; case 1: dist = maxd; break; case 2: dist = maxd - uint32_t(r.below(std::min<uint32_t>(maxd, 40))); break; default: dist = 1 + uint32_t(r.below(maxd)); break; }
        if (dist > maxd) dist = maxd; switch (r.below(5)) { case 0: len = 258; break; case 1: len = 3; break; case 2: len = 3 + uint32_t(r.below(30)); break; default: len = 3 + uint32_t(r.below(256)); }
        t.push_back({true, uint16_t(len), uint16_t(dist == 32768 ? 0 : dist), 0}); for (uint32_t k = 0; k < len; k++) out.push_back(out[out.size() - dist]); made += len; }
      else { uint8_t v = uint8_t(base + r.below(alpha)); t.push_back({false, 0, 0, v}); out.push_back(v); made++; }
    }
    auto ls = [&](const Tok& k) { if (k.len == 258) return 28; int s = 28; while (s > 0 && LB[s] > k.len) s--; return s; }; auto ds = [&](const Tok& k) { uint32_t d = k.dist ? k.dist : 32768; int s = 29; while (DB[s] > d) s--; return s; };
    std::vector<uint8_t> ll(288), dl(32); std::vector<uint32_t> lc, dc; bool alt258 = r.chance(1, 4);
    if (type == 1) { for (int i = 0; i < 288; i++) ll[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; for (int i = 0; i < 32; i++) dl[i] = 5; }
    else {
      std::set<int> L{256}, S; for (auto& k : t) if (k.m) { L.insert(257 + (alt258 && k.len == 258 ? 27 : ls(k))); S.insert(ds(k)); } else L.insert(k.lit);
      uint32_t extra = r.chance(1, 2) ? 0 : uint32_t(r.below(60)); while (extra--) L.insert(int(r.below(286))); extra = r.chance(1, 2) ? 0 : uint32_t(r.below(10)); while (extra--) S.insert(int(r.below(30)));
      random_lengths(r, std::vector<int>(L.begin(), L.end()), 15, ll); random_lengths(r, std::vector<int>(S.begin(), S.end()), 15, dl);
      int nl = 286, nd = 30; if (r.chance(3, 4)) { while (nl > 257 && !ll[nl - 1]) nl--; while (nd > 1 && !dl[nd - 1]) nd--; }
      std::vector<uint8_t> all(ll.begin(), ll.begin() + nl); all.insert(all.end(), dl.begin(), dl.begin() + nd);
      struct P { int s, x, n; }; std::vector<P> ps;
      for (size_t i = 0; i < all.size();) { size_t run = 1; while (i + run < all.size() && all[i + run] == all[i]) run++; 
        if (all[i] == 0 && run >= 11 && r.chance(3, 4)) { size_t k = std::min<size_t>(run, 138); if (r.chance(1, 4)) k = 11 + r.below(k - 10); ps.push_back({18, int(k - 11), 7}); i += k; }
        else if (all[i] == 0 && run >= 3 && r.chance(3, 4)) { size_t k = std::min<size_t>(run, 10); k = 3 + r.below(k - 2); ps.push_back({17, int(k - 3), 3}); i += k; }
        else if (i > 0 && all[i] == all[i - 1] && run >= 3 && r.chance(3, 4)) { size_t k = std::min<size_t>(run, 6); k = 3 + r.below(k - 2); ps.push_back({16, int(k - 3), 2}); i += k; }
        else { ps.push_back({all[i], 0, 0}); i++; } }
      std::set<int> ss; for (auto& p : ps) ss.insert(p.s); while (ss.size() < 2 || r.chance(1, 6)) { ss.insert(int(r.below(19))); if (ss.size() == 19) break; }
      std::vector<uint8_t> pl(19); random_lengths(r, std::vector<int>(ss.begin(), ss.end()), 7, pl); auto pc = codes_of(pl);
      static const uint8_t perm[] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}; int np = 19; if (r.chance(3, 4)) while (np > 4 && !pl[perm[np - 1]]) np--;
      w.put(nl - 257, 5); w.put(nd - 1, 5); w.put(np - 4, 4); for (int i = 0; i < np; i++) w.put(pl[perm[i]], 3);
      for (auto& p : ps) { w.put(pc[p.s], pl[p.s]); if (p.n) w.put(p.x, p.n); }
    }
    lc = codes_of(ll); dc = codes_of(dl);
    for (auto& k : t) { if (!k.m) { w.put(lc[k.lit], ll[k.lit]); continue; }
      int s = ls(k); uint32_t x = k.len - LB[s]; if (k.len == 258 && alt258 && ll[284]) { s = 27; x = 31; } w.put(lc[257 + s], ll[257 + s]); if (LX[s]) w.put(x, LX[s]); int d = ds(k); w.put(dc[d], dl[d]); if (DX[d]) w.put((k.dist ? k.dist : 32768) - DB[d], DX[d]); }
    w.put(lc[256], ll[256]);
  }
};
static uint32_t ref_adler(const uint8_t* p, size_t n) { uint32_t a = 1, b = 0; for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
// What zlib makes of the stream: 1 complete, 0 needs more, -1 error.
static int zlib_says(const Bytes& in, bool zl, Bytes& out, std::string& msg, size_t limit = 8u << 20) {
  z_stream z{}; VH_ASSUME(inflateInit2(&z, zl ? 15 : -15) == Z_OK); out.clear(); z.next_in = (Bytef*)in.data(); z.avail_in = uInt(in.size()); int res = 0; static Bytes buf(1 << 16);
  for (;;) { z.next_out = buf.data(); z.avail_out = uInt(buf.size()); int rc = inflate(&z, Z_NO_FLUSH); out.insert(out.end(), buf.data(), buf.data() + (buf.size() - z.avail_out)); if (rc == Z_STREAM_END) { res = 1; break; } if (rc == Z_NEED_DICT) { res = -1; msg = "dictionary"; break; } if (rc == Z_DATA_ERROR) { res = -1; msg = z.msg ? z.msg : ""; break; } if (rc == Z_BUF_ERROR || (rc == Z_OK && z.avail_in == 0 && z.avail_out)) { res = 0; break; } if (out.size() > limit) { res = 0; break; } VH_ASSUME(rc == Z_OK); }
  inflateEnd(&z); return res;
}
// Feeds `in` in random pieces, each in an exactly sized heap block.
static BLResult feed(Rng& r, const Bytes& in, bool zl, BLArray<uint8_t>& dst, D::DecoderOptions opt, int style, std::string* how = nullptr) {
  auto dec = std::make_unique<D::Decoder>(); dec->init(zl ? D::FormatType::kZlib : D::FormatType::kRaw, opt); size_t i = 0; BLResult res = BL_ERROR_DATA_TRUNCATED; 
  if (in.empty()) return res;
  while (i < in.size()) { size_t n = in.size() - i; if (style == 1) n = 1; else if (style == 2) n = std::min(n, size_t(1 + r.below(20))); else if (style == 3) n = std::min(n, size_t(1 + r.skew(4000)));
    uint8_t* p = (uint8_t*)malloc(n); memcpy(p, in.data() + i, n); res = dec->decode(dst, BLDataView{p, n}); free(p); i += n; if (res != BL_ERROR_DATA_TRUNCATED) break; if (dst.size() > (9u << 20)) break; }
  if (how && i < in.size()) *how += " (before the end)"; return res;
}
static void reserve_some(Rng& r, BLArray<uint8_t>& d, size_t n) { switch (r.below(5)) { case 0: break; case 1: d.reserve(n); break; case 2: d.reserve(n + r.below(300)); break; case 3: d.reserve(r.below(n + 1)); break; default: d.reserve(n * 2 + 4096); } }
static void case_p12(Rng& r) {
  Gen g(r); int nb = int(1 + r.below(5)); size_t budget = r.chance(1, 10) ? 200000 : r.skew(30000); for (int i = 0; i < nb; i++) g.block(i + 1 == nb, budget); g.w.align();
  bool zl = r.chance(1, 2); Bytes s; if (zl) { uint32_t cinfo = r.chance(1, 2) ? 7 : uint32_t(r.below(8)), hdr = (cinfo << 4 | 8) << 8 | uint32_t(r.below(4)) << 6; cinfo = 7; hdr = (7u << 4 | 8) << 8 | (hdr & 0xc0); hdr += 31 - hdr % 31; s = {uint8_t(hdr >> 8), uint8_t(hdr)}; }
  s.insert(s.end(), g.w.b.begin(), g.w.b.end()); size_t body = s.size(); if (zl) { uint32_t a = ref_adler(g.out.data(), g.out.size()); for (int k = 3; k >= 0; k--) s.push_back(uint8_t(a >> (8 * k))); }
  Hash h; h.add(s.data(), std::min<size_t>(s.size(), 4096)); distinct(h.h); sample("%d blocks, %zu bytes compressed, %zu uncompressed, %s", nb, s.size(), g.out.size(), zl ? "zlib" : "raw");
  { Bytes zo; std::string m; VH_ASSUME(zlib_says(s, zl, zo, m, SIZE_MAX) == 1 && zo == g.out); }
  if (st().verbose) { FILE* f = fopen("/tmp/s.bin","wb"); fwrite(s.data(),1,s.size(),f); fclose(f); }
  count("valid streams"); if (g.kinds & 4) count("dynamic blocks"); count("bytes decoded", g.out.size());
  auto same = [&](const BLArray<uint8_t>& d) { return d.size() == g.out.size() && (d.size() == 0 || memcmp(d.data(), g.out.data(), d.size()) == 0); };
  for (int style = 0; style < 4; style++) { if (style == 1 && s.size() > 20000) continue; BLArray<uint8_t> dst; reserve_some(r, dst, g.out.size()); std::string how; BLResult res = feed(r, s, zl, dst, D::DecoderOptions::kNone, style, &how); 
    if (res != BL_SUCCESS || !same(dst)) { size_t k = 0; while (k < std::min(dst.size(), g.out.size()) && dst.data()[k] == g.out[k]) k++; fail("decode", "valid stream (%s, style %d%s): result %u, %zu bytes of %zu, equal up to %zu", zl ? "zlib" : "raw", style, how.c_str(), res, dst.size(), g.out.size(), k); } }
  // Decoding past the end of the stream ends and changes nothing.
  if (r.chance(1, 4)) { BLArray<uint8_t> dst; auto dec = std::make_unique<D::Decoder>(); dec->init(zl ? D::FormatType::kZlib : D::FormatType::kRaw); VH_CHECK(dec->decode(dst, BLDataView{s.data(), s.size()}) == BL_SUCCESS && same(dst), "decode", "whole stream"); uint8_t more[20] = {3, 0}; dec->decode(dst, BLDataView{more, size_t(r.below(20))}); VH_CHECK(same(dst), "decode-after-end", "data past the end of the stream changed the output to %zu bytes", dst.size()); count("decoded past the end"); }
  // Garbage after the stream doesn't matter.
  if (r.chance(1, 3)) { Bytes t = s; size_t n = r.below(40); while (n--) t.push_back(uint8_t(r.u32())); BLArray<uint8_t> dst; BLResult res = feed(r, t, zl, dst, D::DecoderOptions::kNone, int(r.below(4))); VH_CHECK(res == BL_SUCCESS && same(dst), "decode-trailing", "trailing bytes: result %u, %zu bytes", res, dst.size()); }
  // Never reallocate.
  { BLArray<uint8_t> dst; dst.reserve(std::max<size_t>(g.out.size(), 1)); size_t cap = dst.capacity(); const uint8_t* p = dst.data(); BLResult res = feed(r, s, zl, dst, D::DecoderOptions::kNeverReallocOutputBuffer, int(r.below(4))); VH_CHECK(res == BL_SUCCESS && same(dst) && dst.capacity() == cap && dst.data() == p, "decode-exact", "exact buffer: result %u, %zu bytes of %zu", res, dst.size(), g.out.size()); }
  if (g.out.size() > 100) { BLArray<uint8_t> dst; dst.reserve(r.below(g.out.size())); size_t cap = dst.capacity(); BLResult res = feed(r, s, zl, dst, D::DecoderOptions::kNeverReallocOutputBuffer, int(r.below(4))); if (cap < g.out.size()) VH_CHECK(res != BL_SUCCESS && dst.capacity() == cap && memcmp(dst.data(), g.out.data(), dst.size()) == 0, "decode-small", "buffer of %zu for %zu bytes: result %u", cap, g.out.size(), res); }
  // Truncation: never accepted, and what was produced is a prefix.
  for (int k = 0; k < 3; k++) { size_t n = k == 0 ? body - 1 : r.below(body); Bytes t(s.begin(), s.begin() + n); BLArray<uint8_t> dst; reserve_some(r, dst, g.out.size()); BLResult res = feed(r, t, zl, dst, D::DecoderOptions::kNone, int(r.below(4)) % (t.size() > 20000 ? 1 : 4)); VH_CHECK(res == BL_ERROR_DATA_TRUNCATED, "truncated", "stream cut at %zu of %zu: result %u", n, body, res); VH_CHECK(dst.size() <= g.out.size() && (dst.is_empty() || memcmp(dst.data(), g.out.data(), dst.size()) == 0), "truncated-prefix", "output of a cut stream isn't a prefix"); count("truncated streams"); }
  // Damage, judged by zlib.
  for (int k = 0; k < 6; k++) {
    Bytes t = s; if (t.empty()) break; int n = int(1 + r.below(3)); size_t reg = r.chance(1, 2) ? std::min<size_t>(t.size(), 100) : t.size();
    while (n--) switch (r.below(5)) { case 0: t[r.below(reg)] = uint8_t(r.u32()); break; case 1: t[r.below(reg)] ^= uint8_t(1u << r.below(8)); break; case 2: t.erase(t.begin() + r.below(t.size())); if (t.empty()) t.push_back(0); reg = std::min(reg, t.size()); break; case 3: t.insert(t.begin() + r.below(reg), uint8_t(r.u32())); break; default: { size_t a = r.below(reg); for (size_t i = a; i < std::min(a + 6, t.size()); i++) t[i] = uint8_t(r.u32()); } }
    if (r.chance(1, 8)) { t.resize(1 + r.below(200)); for (auto& b : t) b = uint8_t(r.u32()); if (zl) { t[0] = 0x78; if (t.size() > 1) t[1] = 0x9c; } }
    Bytes zo; std::string msg; int says = zlib_says(t, zl, zo, msg); if (zo.size() > (7u << 20)) continue;
    BLArray<uint8_t> dst; reserve_some(r, dst, g.out.size()); BLResult res = feed(r, t, zl, dst, D::DecoderOptions::kNone, int(r.below(4))); h.add(res);
    if (says == 1) { VH_CHECK(res == BL_SUCCESS && dst.size() == zo.size() && (zo.empty() || !memcmp(dst.data(), zo.data(), zo.size())), "damaged-valid", "a modified stream that is still valid: result %u, %zu bytes, zlib produces %zu", res, dst.size(), zo.size()); count("damaged but valid"); }
    else if (says == 0) { bool trailer = res == BL_SUCCESS && zl && dst.size() == zo.size() && (zo.empty() || !memcmp(dst.data(), zo.data(), zo.size())); // Only the checksum is missing.
      if (trailer) { count("checksum missing"); continue; } VH_CHECK(res != BL_SUCCESS, "damaged-truncated", "zlib needs more data after %zu bytes, decoded as complete with %zu", zo.size(), dst.size()); count("damaged, incomplete"); }
    else { if (msg.find("too many length") != std::string::npos) { count("damaged, too many codes"); continue; }
      if (msg.find("data check") != std::string::npos) { if (res == BL_SUCCESS) report("checksum-unchecked", "a zlib stream with a wrong Adler-32 is accepted"); continue; }
      VH_CHECK(res != BL_SUCCESS, "damaged-accepted", "zlib rejects the stream (%s), it is accepted with %zu bytes", msg.c_str(), dst.size()); count("damaged, rejected"); }
  }
}
// ---------------------------------------------------------------------------------------------------------------- P13
static Bytes make_data(Rng& r, size_t n) {
  Bytes d; d.reserve(n + 300); uint32_t alpha = uint32_t(r.skew(255)) + 1; int style = int(r.below(7));
  if (style == 0) { d.assign(n, uint8_t(r.u32())); return d; }
  if (style == 1) { for (size_t i = 0; i < n; i++) d.push_back(uint8_t(r.u32())); return d; }
  while (d.size() < n) { switch (style) {
    case 2: d.push_back(uint8_t(r.below(alpha))); break;
    case 3: { if (d.size() > 4 && r.chance(1, 3)) { size_t dist = 1 + r.below(std::min<size_t>(d.size(), r.chance(1, 3) ? 40000 : 300)), len = r.skew(600); while (len--) d.push_back(d[d.size() - dist]); } else d.push_back(uint8_t(r.below(alpha))); break; }
    case 4: { size_t k = r.skew(3000); uint8_t v = uint8_t(r.u32()); if (r.chance(1, 2)) while (k--) d.push_back(v); else while (k--) d.push_back(uint8_t(r.u32())); break; }
    case 5: { static const char* words[] = {"the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dog. ", "\n", "0x1234, "}; const char* p = r.pick(words); while (*p) d.push_back(uint8_t(*p++)); break; }
    default: { size_t k = 1 + r.skew(20); uint8_t v = uint8_t(r.below(alpha)); while (k--) { d.push_back(v); v = uint8_t(v + 3); } if (d.size() > 32768 && r.chance(1, 20)) { size_t o = d.size() - 32768 + r.below(3), len = 5 + r.below(300); while (len--) d.push_back(d[o++]); } break; } } }
  d.resize(n); return d;
}
static void case_p13(Rng& r) {
  uint32_t level = uint32_t(r.below(13)); bool zl = r.chance(1, 2); size_t n = r.chance(1, 60) ? r.below(st().thorough ? 3000000 : 700000) : r.chance(1, 8) ? r.below(70000) : r.skew(6000) + 1; if (r.chance(1, 12)) n = 1 + r.below(120); if (n == 0) n = 1; Bytes d = make_data(r, n);
  Hash h; h.add(level).add(zl).add(n).add(d.data(), std::min<size_t>(n, 256)); distinct(h.h); sample("level %u, %zu bytes, %s", level, n, zl ? "zlib" : "raw");
  D::Encoder e; VH_OK(e.init(zl ? D::FormatType::kZlib : D::FormatType::kRaw, r.chance(1, 40) ? 13 + uint32_t(r.below(100)) : level), "init");
  size_t bound = e.minimum_output_buffer_size(n); uint8_t* in = (uint8_t*)malloc(n); memcpy(in, d.data(), n);
  auto judge = [&](const uint8_t* p, size_t size, const char* what) { Bytes c(p, p + size), zo; std::string msg; int says = zlib_says(c, zl, zo, msg, SIZE_MAX); VH_CHECK(says == 1, "stream", "%s at level %u of %zu bytes isn't a well-formed stream (%s%s)", what, level, n, says == 0 ? "incomplete" : "", msg.c_str()); VH_CHECK(zo == d, "lossless", "%s at level %u of %zu bytes decompresses to something else (%zu bytes)", what, level, n, zo.size());
    Bytes cut(c.begin(), c.end() - 1); Bytes z2; std::string m2; VH_CHECK(zlib_says(cut, zl, z2, m2, SIZE_MAX) != 1, "stream-size", "%s: bytes after the end of the stream", what); };
  { uint8_t* out = (uint8_t*)malloc(bound); size_t size = e.compress_to(out, bound, in, n); VH_CHECK(size != 0 && size <= bound, "bound", "level %u, %zu bytes: compressed to %zu, announced at most %zu", level, n, size, bound); judge(out, size, "compress_to"); free(out); count("streams"); count("bytes", n); }
  { BLArray<uint8_t> a; Bytes pre = make_data(r, r.below(20)); a.append_data(pre.data(), pre.size()); bool app = r.chance(1, 2); BLModifyOp op = app ? (r.chance(1, 2) ? BL_MODIFY_OP_APPEND_FIT : BL_MODIFY_OP_APPEND_GROW) : (r.chance(1, 2) ? BL_MODIFY_OP_ASSIGN_FIT : BL_MODIFY_OP_ASSIGN_GROW);
    VH_OK(e.compress(a, op, BLDataView{in, n}), "compress"); size_t off = app ? pre.size() : 0; 
    VH_CHECK(a.size() > off && (off == 0 || !memcmp(a.data(), pre.data(), off)), "compress-append", "appending to %zu bytes left %zu bytes", off, a.size()); judge(a.data() + off, a.size() - off, "compress");
    // Own decoder.
    if (n < 200000) { BLArray<uint8_t> o; Bytes c(a.data() + off, a.data() + a.size()); BLResult res = feed(r, c, zl, o, D::DecoderOptions::kNone, int(r.below(4)) % (c.size() > 20000 ? 1 : 4)); VH_CHECK(res == BL_SUCCESS && o.size() == n && !memcmp(o.data(), d.data(), n), "own-decoder", "result %u, %zu bytes of %zu", res, o.size(), n); } }
  free(in);
  // Checksums: any length, alignment and split.
  for (int k = 0; k < 4; k++) { size_t off = r.below(70), len = std::min(n, size_t(r.chance(1, 4) ? n : r.below(300))); uint8_t* p = (uint8_t*)malloc(off + len + 1); const uint8_t* q = d.data() + r.below(n - len + 1); memcpy(p + off, q, len); if (r.chance(1, 4)) memset(p + off, 255, len); uint32_t ea = uint32_t(::adler32(1, p + off, uInt(len))), ec = uint32_t(::crc32(0, p + off, uInt(len)));
    if (len < 2000) VH_ASSUME(ea == ref_adler(p + off, len));
    VH_CHECK(C::adler32(p + off, len) == ea, "adler32", "%zu bytes at offset %zu: %08x, definition gives %08x", len, off, C::adler32(p + off, len), ea); VH_CHECK(C::crc32(p + off, len) == ec, "crc32", "%zu bytes at offset %zu: %08x, definition gives %08x", len, off, C::crc32(p + off, len), ec);
    uint32_t a = C::kAdler32Initial, c = C::kCrc32Initial; for (size_t i = 0; i < len;) { size_t m = std::min(len - i, size_t(r.skew(6000))); a = C::function_table.adler32(a, p + off + i, m); c = C::function_table.crc32(c, p + off + i, m); i += m; } VH_CHECK(a == ea && C::crc32_finalize(c) == ec, "checksum-split", "%zu bytes in pieces: %08x %08x, definition gives %08x %08x", len, a, C::crc32_finalize(c), ea, ec);
    uint32_t seed = uint32_t(r.below(65521)) << 16 | uint32_t(r.below(65521)), sc = r.u32(); VH_CHECK(C::function_table.adler32(seed, p + off, len) == uint32_t(::adler32(seed, p + off, uInt(len))), "adler32-seed", "seed %08x, %zu bytes", seed, len); VH_CHECK(~C::function_table.crc32(~sc, p + off, len) == uint32_t(::crc32(sc, p + off, uInt(len))), "crc32-seed", "seed %08x, %zu bytes", sc, len); free(p); count("checksums"); }
}
void vh_init() {}
void vh_case(uint64_t, Rng& rng) { if (st().mode == "P12") case_p12(rng); else case_p13(rng); }
void vh_finish() {}
