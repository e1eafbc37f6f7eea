// P20 fonts against generated ones with a known meaning; P19 hostile font data.
#include "vh.h"
#include "fontgen.inc"
using namespace vh; typedef std::vector<uint8_t> Bytes;
#include "fontrand.inc"
using fg::Outline; using fg::Contour; using fg::Seg; using fg::Pt;

static BLFontFace make_face(const Bytes& data, BLResult* res = nullptr) {
  // An exact-size heap copy, so that reads past its end are seen.
  uint8_t* p = (uint8_t*)malloc(data.size() ? data.size() : 1); memcpy(p, data.data(), data.size());
  BLFontData fd; BLResult e = fd.create_from_data(p, data.size(), [](void*, void* ext, void*) noexcept { free(ext); }, p);
  if (e != BL_SUCCESS) free(p);
  BLFontFace ff; if (e == BL_SUCCESS) e = ff.create_from_data(fd, 0);
  if (res) *res = e; else VH_CHECK(e == BL_SUCCESS, "create-face", "a valid font was rejected: %u", e);
  return ff;
}


// A collection of fonts: every face has its own table directory, whose offsets count from the start of the file.
static Bytes make_collection(Rng& r, const std::vector<Bytes>& fonts) {
  Bytes out; auto p16 = [&](uint32_t v) { out.push_back(uint8_t(v >> 8)); out.push_back(uint8_t(v)); }; auto p32 = [&](uint32_t v) { p16(v >> 16); p16(v & 0xFFFF); };
  bool v2 = r.chance(1, 3); p32(0x74746366); p32(v2 ? 0x00020000 : 0x00010000); p32(uint32_t(fonts.size()));
  size_t oa = out.size(); for (size_t i = 0; i < fonts.size(); i++) p32(0);
  if (v2) { p32(0); p32(0); p32(0); }
  auto set32 = [&](size_t o, uint32_t v) { for (int k = 0; k < 4; k++) out[o + size_t(k)] = uint8_t(v >> (24 - 8 * k)); };
  std::vector<size_t> order; for (size_t i = 0; i < fonts.size(); i++) order.push_back(i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  for (size_t i : order) {
    while (out.size() & 3) out.push_back(0);
    size_t base = out.size(); const Bytes& f = fonts[i]; out.insert(out.end(), f.begin(), f.end()); set32(oa + i * 4, uint32_t(base));
    size_t nt = size_t(f[4]) << 8 | f[5]; for (size_t k = 0; k < nt; k++) { size_t o = 12 + k * 16 + 8; if (o + 4 > f.size()) break; uint32_t v = uint32_t(f[o]) << 24 | uint32_t(f[o + 1]) << 16 | uint32_t(f[o + 2]) << 8 | f[o + 3]; set32(base + o, v + uint32_t(base)); }
  }
  return out;
}
static BLFontFace make_collection_face(Rng& r, const Bytes& data, size_t n, uint32_t index, BLResult* res = nullptr) {
  uint8_t* p = (uint8_t*)malloc(data.size()); memcpy(p, data.data(), data.size());
  BLFontData fd; BLResult e = fd.create_from_data(p, data.size(), [](void*, void* ext, void*) noexcept { free(ext); }, p); BLFontFace ff;
  if (e != BL_SUCCESS) { free(p); if (res) *res = e; else VH_CHECK(false, "collection", "a valid collection was rejected: %u", e); return ff; }
  VH_CHECK(fd.face_count() == n && fd.is_collection(), "collection", "%zu faces expected, %u found, collection flag %d", n, fd.face_count(), int(fd.is_collection()));
  // Indexes that have no face are refused, and the face keeps what it had.
  uint32_t bad = r.chance(1, 2) ? uint32_t(n) : r.chance(1, 2) ? 0xFFFFFFFFu : uint32_t(n) + r.u32() % 1000; BLFontFace keep, was; if (r.chance(1, 2) && keep.create_from_data(fd, index) != BL_SUCCESS) keep.reset(); was = keep;
  e = keep.create_from_data(fd, bad); VH_CHECK(e == BL_ERROR_INVALID_VALUE, "face-index", "face %u of a collection of %zu gave %u", bad, n, e); VH_CHECK(keep.equals(was), "face-index", "a refused face index changed the face");
  BLArray<BLTag> tags; e = fd.get_table_tags(bad, tags); VH_CHECK(e != BL_SUCCESS && tags.is_empty(), "face-index", "tables of face %u of %zu: %u, %zu tags", bad, n, e, tags.size()); BLFontTable tb; VH_CHECK(fd.get_table(bad, &tb, BL_MAKE_TAG('h', 'e', 'a', 'd')) == 0 && tb.size == 0, "face-index", "a table of face %u of %zu", bad, n);
  e = ff.create_from_data(fd, index); if (res) { *res = e; return ff; }
  VH_CHECK(e == BL_SUCCESS, "collection", "face %u of %zu was rejected: %u", index, n, e); VH_CHECK(ff.face_index() == index, "collection", "face %u says it is face %u", index, ff.face_index()); count("collections"); return ff;
}

#include "fonts_p20.inc"
#include "fonts_p19.inc"
#include "fonts_p22.inc"
#include "fonts_p39.inc"
#include "fonts_p21.inc"

void vh_init() {}
void vh_case(uint64_t id, Rng& r) {
  const std::string& m = st().mode;
  if (m == "P20") p20(id, r); else if (m == "P21") p21::run(id, r); else if (m == "P19") p19(id, r); else if (m == "P22") p22(id, r); else if (m == "P39") p39(id, r);
}
void vh_finish() {}
