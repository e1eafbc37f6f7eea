// Monitors P02 (strings, arrays), P03 (bit sets), P04 (bit arrays): random histories over a pool of handles, each
// followed by a sequence/set/bit-vector model; every handle is compared with its model after every operation.
#include "vh.h"
using namespace vh;

enum { POOL = 4 };

// ---------------------------------------------------------------- strings
static char rnd_char(Rng& r) { return r.chance(1, 20) ? char(r.range(1, 255)) : char('a' + r.below(4)); }
static std::string rnd_str(Rng& r, size_t maxn) { std::string s; size_t n = r.skew(maxn); for (size_t i = 0; i < n; i++) s += rnd_char(r); return s; }

static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static void check_string(const BLString& s, const std::string& m, const char* op) {
  VH_CHECK(s.size() == m.size(), "string:size", "after %s: size %zu model %zu", op, s.size(), m.size());
  VH_CHECK(!memcmp(s.data(), m.data(), m.size()), "string:content", "after %s: content differs (size %zu)", op, m.size());
  VH_CHECK(s.data()[s.size()] == 0, "string:terminator", "after %s: not null terminated (size %zu)", op, m.size());
  VH_CHECK(s.capacity() >= s.size(), "string:capacity", "after %s: capacity %zu < size %zu", op, s.capacity(), s.size());
}

static size_t m_index_of(const std::string& m, char c, size_t from) { size_t p = from <= m.size() ? m.find(c, from) : std::string::npos; return p == std::string::npos ? SIZE_MAX : p; }

static void string_case(Rng& r) {
  BLString h[POOL]; std::string m[POOL]; Hash hs;
  unsigned nops = unsigned(r.range(5, 60));
  std::string trace;
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(POOL)), j = unsigned(r.below(POOL)); BLString& s = h[i]; std::string& v = m[i];
    const char* op = "?"; size_t n; std::string t; char* p = nullptr; BLResult res = BL_SUCCESS;
    unsigned o = unsigned(r.below(30)); hs.add(o).add(i).add(uint32_t(v.size()));
    switch (o) {
      case 0: op = "assign_weak"; res = s.assign(h[j]); v = std::string(m[j]); break;
      case 1: op = "assign_deep"; res = s.assign_deep(h[j]); v = std::string(m[j]); break;
      case 2: op = "assign_move"; if (i == j) break; res = s.assign(std::move(h[j])); v = m[j]; m[j].clear(); break;
      case 3: op = "assign_data"; t = rnd_str(r, 300); res = r.chance(1, 2) || t.find('\0') != std::string::npos ? s.assign(t.data(), t.size()) : s.assign(t.c_str()); v = t; break;
      case 4: op = "assign_char"; { char c = rnd_char(r); n = r.skew(200); if (r.chance(1, 2)) { res = s.assign(c); v.assign(1, c); } else { res = s.assign(c, n); v.assign(n, c); } } break;
      case 5: op = "append_data"; t = rnd_str(r, 300); res = s.append(t.data(), t.size()); v += t; break;
      case 6: op = "append_char"; { char c = rnd_char(r); n = r.skew(40); if (r.chance(1, 2)) { res = s.append(c); v += c; } else { res = s.append(c, n); v.append(n, c); } } break;
      case 7: op = "append_string"; if (v.size() + m[j].size() > 3000) break; t = m[j]; res = s.append(h[j]); v += t; break;
      case 8: op = "prepend"; t = rnd_str(r, 100); res = s.prepend(BLStringView{t.data(), t.size()}); v = t + v; break;
      case 9: op = "insert_data"; t = rnd_str(r, 200); n = r.below(v.size() + 1); res = s.insert(n, t.data(), t.size()); v.insert(n, t); break;
      case 10: op = "insert_string"; if (v.size() + m[j].size() > 3000) break; t = m[j]; n = r.below(v.size() + 1); res = s.insert(n, h[j]); v.insert(n, t); break;
      case 11: op = "insert_char"; { char c = rnd_char(r); n = r.below(v.size() + 1); size_t q = r.skew(50); res = s.insert(n, c, q); v.insert(n, q, c); } break;
      case 12: op = "remove_range"; { size_t a = r.below(v.size() + 4), b = r.chance(1, 6) ? SIZE_MAX : r.below(v.size() + 6); res = s.remove(BLRange{a, b}); size_t e = std::min(b, v.size()), st = std::min(a, e); v.erase(st, e - st); } break;
      case 13: op = "remove_index"; if (v.empty()) break; n = r.below(v.size()); res = s.remove(n); v.erase(n, 1); break;
      case 14: op = "resize"; { n = r.skew(400); char c = r.chance(1, 3) ? 0 : rnd_char(r); res = s.resize(n, c); v.resize(n, c); } break;
      case 15: op = "truncate"; n = r.skew(200); res = s.truncate(n); if (n < v.size()) v.resize(n); break;
      case 16: op = "reserve"; n = r.chance(1, 40) ? SIZE_MAX - r.below(100) : r.skew(600); res = bl_string_reserve(&s, n); if (n > (size_t(1) << 40)) { VH_CHECK(res != BL_SUCCESS, "string:huge", "reserve(%zu) succeeded", n); res = BL_SUCCESS; } else VH_CHECK(res != BL_SUCCESS || s.capacity() >= n, "string:capacity", "reserve(%zu) gave %zu", n, s.capacity()); break;
      case 17: op = "shrink"; res = s.shrink(); break;
      case 18: op = "clear"; res = s.clear(); v.clear(); break;
      case 19: op = "reset"; res = s.reset(); v.clear(); break;
      case 20: case 21: { // formatted
        int x = int(r.u32()); t = rnd_str(r, r.chance(1, 4) ? 1400 : 80); if (t.find('\0') != std::string::npos) break; char* buf = new char[t.size() + 64]; int l = snprintf(buf, t.size() + 64, "<%d:%s|%5.2f>", x, t.c_str(), 1.5);
        if (o == 20) { op = "assign_format"; res = s.assign_format("<%d:%s|%5.2f>", x, t.c_str(), 1.5); v.assign(buf, l); } else { op = "append_format"; res = s.append_format("<%d:%s|%5.2f>", x, t.c_str(), 1.5); v.append(buf, l); } delete[] buf; } break;
      case 22: case 23: { // uninitialised space
        BLModifyOp mo = BLModifyOp(r.below(4)); n = r.chance(1, 40) ? (SIZE_MAX >> r.below(3)) - r.below(64) : r.skew(300); op = mo < 2 ? "modify_op(assign)" : "modify_op(append)";
        if (n > (size_t(1) << 40)) { res = s.modify_op(mo, n, &p); VH_CHECK(res != BL_SUCCESS, "string:huge", "modify_op(%zu) succeeded", n); res = BL_SUCCESS; break; }
        res = s.modify_op(mo, n, &p); if (res) break; bool app = mo == BL_MODIFY_OP_APPEND_FIT || mo == BL_MODIFY_OP_APPEND_GROW; if (!app) v.clear(); size_t base = v.size(); for (size_t q = 0; q < n; q++) { p[q] = rnd_char(r); v += p[q]; } (void)base; } break;
      case 24: { op = "insert_op"; n = r.skew(200); size_t at = r.below(v.size() + 1); res = s.insert_op(at, n, &p); if (res) break; t.clear(); for (size_t q = 0; q < n; q++) { p[q] = rnd_char(r); t += p[q]; } v.insert(at, t); } break;
      case 25: op = "make_mutable"; res = s.make_mutable(&p); if (!res && v.size()) { n = r.below(v.size()); p[n] = 'Z'; v[n] = 'Z'; } break;
      case 26: op = "swap"; s.swap(h[j]); std::swap(v, m[j]); break;
      case 27: { op = "alias"; if (v.size() < 2) break; size_t a = r.below(v.size()), q = r.below(v.size() - a + 1); t = v.substr(a, q); unsigned w = unsigned(r.below(3)); if (v.size() > 2000) break;
        if (w == 0) { op = "assign_own_slice"; res = s.assign(s.data() + a, q); v = t; } else if (w == 1) { op = "append_own_slice"; res = s.append(s.data() + a, q); v += t; } else { op = "insert_own_slice"; size_t at = r.below(v.size() + 1); res = s.insert(at, s.data() + a, q); v.insert(at, t); } } break;
      case 28: { op = "ctor"; t = rnd_str(r, 100); BLString z(BLStringView{t.data(), t.size()}); check_string(z, t, op); BLString z2(z); z.append('x'); check_string(z2, t, "ctor copy"); BLString z3(std::move(z2)); check_string(z3, t, "ctor move"); check_string(z2, "", "moved from"); } break;
      case 29: { op = "search"; char c = rnd_char(r); size_t from = r.below(v.size() + 4);
        VH_CHECK(s.index_of(c) == m_index_of(v, c, 0), "string:index_of", "index_of"); VH_CHECK(s.index_of(c, from) == m_index_of(v, c, from), "string:index_of", "index_of from %zu size %zu", from, v.size());
        size_t l = v.rfind(c); VH_CHECK(s.last_index_of(c) == (l == std::string::npos ? SIZE_MAX : l), "string:last_index_of", "last_index_of");
        if (v.size()) { size_t l2 = v.rfind(c, from); VH_CHECK(s.last_index_of(c, from) == (l2 == std::string::npos ? SIZE_MAX : l2), "string:last_index_of", "last_index_of from %zu size %zu", from, v.size()); } } break;
    }
    if (s.data() == nullptr) fail("string:null", "data() is null after %s", op);
    VH_CHECK(res == BL_SUCCESS, "string:result", "%s returned %u", op, unsigned(res));
    for (unsigned q = 0; q < POOL; q++) check_string(h[q], m[q], op);
    int c = sgn(h[i].compare(h[j])); size_t mn = std::min(m[i].size(), m[j].size()); int e = sgn(memcmp(m[i].data(), m[j].data(), mn)); if (!e) e = m[i].size() < m[j].size() ? -1 : m[i].size() > m[j].size();
    VH_CHECK(c == e, "string:compare", "compare %d expected %d", c, e);
    VH_CHECK(h[i].equals(h[j]) == (e == 0) && (h[i] == h[j]) == (e == 0), "string:equals", "equals expected %d", e == 0);
    if (m[j].find('\0') == std::string::npos) {
      VH_CHECK(h[i].equals(m[j].c_str()) == (e == 0), "string:equals_data", "equals(cstr) size %zu vs %zu expected %d", m[i].size(), m[j].size(), e == 0);
      VH_CHECK(sgn(h[i].compare(m[j].c_str())) == e, "string:compare_data", "compare(cstr) size %zu vs %zu expected %d", m[i].size(), m[j].size(), e);
    }
    VH_CHECK(h[i].equals(BLStringView{m[j].data(), m[j].size()}) == (e == 0) && sgn(h[i].compare(BLStringView{m[j].data(), m[j].size()})) == e, "string:compare_data", "compare(data) expected %d", e);
    count("string ops");
  }
  distinct(hs.h); sample("string history of %u ops, final sizes %zu %zu %zu %zu", nops, m[0].size(), m[1].size(), m[2].size(), m[3].size());
}

// ---------------------------------------------------------------- arrays
struct AT { BLObjectType t; unsigned size; };
static const AT kAT[] = { {BL_OBJECT_TYPE_ARRAY_OBJECT, 16}, {BL_OBJECT_TYPE_ARRAY_INT8, 1}, {BL_OBJECT_TYPE_ARRAY_UINT8, 1}, {BL_OBJECT_TYPE_ARRAY_INT16, 2}, {BL_OBJECT_TYPE_ARRAY_UINT16, 2}, {BL_OBJECT_TYPE_ARRAY_INT32, 4}, {BL_OBJECT_TYPE_ARRAY_UINT32, 4}, {BL_OBJECT_TYPE_ARRAY_INT64, 8}, {BL_OBJECT_TYPE_ARRAY_UINT64, 8}, {BL_OBJECT_TYPE_ARRAY_FLOAT32, 4}, {BL_OBJECT_TYPE_ARRAY_FLOAT64, 8},
  {BL_OBJECT_TYPE_ARRAY_STRUCT_1, 1}, {BL_OBJECT_TYPE_ARRAY_STRUCT_2, 2}, {BL_OBJECT_TYPE_ARRAY_STRUCT_3, 3}, {BL_OBJECT_TYPE_ARRAY_STRUCT_4, 4}, {BL_OBJECT_TYPE_ARRAY_STRUCT_6, 6}, {BL_OBJECT_TYPE_ARRAY_STRUCT_8, 8}, {BL_OBJECT_TYPE_ARRAY_STRUCT_10, 10}, {BL_OBJECT_TYPE_ARRAY_STRUCT_12, 12}, {BL_OBJECT_TYPE_ARRAY_STRUCT_16, 16}, {BL_OBJECT_TYPE_ARRAY_STRUCT_20, 20}, {BL_OBJECT_TYPE_ARRAY_STRUCT_24, 24}, {BL_OBJECT_TYPE_ARRAY_STRUCT_32, 32} };

typedef std::vector<std::string> Seq; // item = bytes (or, for object arrays, the string the item object holds)

struct Ext { std::vector<uint8_t>* unused; uint8_t* mem; size_t bytes; std::string copy; int destroyed = 0; bool writable; };
static std::vector<std::unique_ptr<Ext>>* g_ext;
static void BL_CDECL ext_destroy(void* impl, void* data, void* user) noexcept { (void)impl; Ext* e = (Ext*)user; e->destroyed++; if (data != e->mem) report("array:external", "destroy callback got other data"); free(e->mem); e->mem = nullptr; }

struct ArrM {
  unsigned isz; bool obj;
  std::string item_bytes(const void* p) const { if (!obj) return std::string((const char*)p, isz); const BLString* s = (const BLString*)p; if (!s->_d.is_string()) return "!not a string"; return std::string(s->data(), s->size()); }
  std::string rnd_item(Rng& r) const { if (obj) return r.chance(1, 2) ? rnd_str(r, 8) : rnd_str(r, 40); std::string s; for (unsigned i = 0; i < isz; i++) s += char(r.below(r.chance(1, 2) ? 3 : 256)); return s; }
};

// Contiguous temporary items of the element type.
struct Items {
  const ArrM& am; std::vector<uint8_t> raw; size_t n;
  Items(const ArrM& am, const Seq& q) : am(am), raw(std::max<size_t>(q.size() * am.isz, 1) + 16), n(q.size()) { for (size_t i = 0; i < n; i++) { if (am.obj) new (ptr() + i * 16) BLString(BLStringView{q[i].data(), q[i].size()}); else memcpy(ptr() + i * am.isz, q[i].data(), am.isz); } }
  uint8_t* ptr() { return (uint8_t*)((uintptr_t(raw.data()) + 15) & ~uintptr_t(15)); }
  ~Items() { if (am.obj) for (size_t i = 0; i < n; i++) ((BLString*)(ptr() + i * 16))->~BLString(); }
};

static void check_array(const BLArrayCore& a, const Seq& m, const ArrM& am, const char* op) {
  size_t n = bl_array_get_size(&a);
  VH_CHECK(n == m.size(), "array:size", "after %s: size %zu model %zu (item size %u)", op, n, m.size(), am.isz);
  VH_CHECK(bl_array_get_capacity(&a) >= n, "array:capacity", "after %s: capacity %zu < size %zu", op, bl_array_get_capacity(&a), n);
  const uint8_t* d = (const uint8_t*)bl_array_get_data(&a);
  for (size_t i = 0; i < n; i++) { std::string s = am.item_bytes(d + i * am.isz); VH_CHECK(s == m[i], "array:content", "after %s: item %zu of %zu differs (item size %u%s)", op, i, n, am.isz, am.obj ? ", objects" : ""); }
}

static void array_case(Rng& r) {
  std::vector<std::unique_ptr<Ext>> exts; g_ext = &exts;
  const AT& at = r.pick(kAT); ArrM am{at.size, at.t == BL_OBJECT_TYPE_ARRAY_OBJECT};
  struct Pool { BLArrayCore h[POOL]; ~Pool() { for (auto& x : h) bl_array_destroy(&x); } } pool; BLArrayCore* h = pool.h; Seq m[POOL]; Hash hs; hs.add(at.t);
  for (unsigned i = 0; i < POOL; i++) VH_OK(bl_array_init(&h[i], at.t), "array:init");
  VH_CHECK(bl_array_get_item_size(&h[0]) == at.size, "array:item_size", "item size %zu", bl_array_get_item_size(&h[0]));
  unsigned nops = unsigned(r.range(5, 50)); const size_t MAXN = 120;
  auto rseq = [&](size_t mx) { Seq s; size_t n = r.skew(mx); for (size_t i = 0; i < n; i++) s.push_back(am.rnd_item(r)); return s; };
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(POOL)), j = unsigned(r.below(POOL)); BLArrayCore* a = &h[i]; Seq& v = m[i]; const char* op = "?"; BLResult res = BL_SUCCESS; void* p = nullptr; size_t n;
    unsigned o = unsigned(r.below(27)); hs.add(o).add(i).add(uint32_t(v.size()));
    auto put = [&](void* base, size_t idx, const std::string& s) { if (am.obj) new ((uint8_t*)base + idx * 16) BLString(BLStringView{s.data(), s.size()}); else memcpy((uint8_t*)base + idx * am.isz, s.data(), am.isz); };
    switch (o) {
      case 0: op = "assign_weak"; res = bl_array_assign_weak(a, &h[j]); { Seq t = m[j]; v = t; } break;
      case 1: op = "assign_deep"; res = bl_array_assign_deep(a, &h[j]); { Seq t = m[j]; v = t; } break;
      case 2: op = "assign_move"; if (i == j) break; res = bl_array_assign_move(a, &h[j]); v = m[j]; m[j].clear(); break;
      case 3: { op = "assign_data"; Seq t = rseq(MAXN); Items it(am, t); res = bl_array_assign_data(a, it.ptr(), t.size()); v = t; } break;
      case 4: { op = "append_data"; Seq t = rseq(MAXN); if (v.size() > 600) break; Items it(am, t); res = bl_array_append_data(a, it.ptr(), t.size()); v.insert(v.end(), t.begin(), t.end()); } break;
      case 5: { op = "append_item"; Seq t{am.rnd_item(r)}; Items it(am, t); res = bl_array_append_item(a, it.ptr()); v.push_back(t[0]); } break;
      case 6: { op = "insert_data"; Seq t = rseq(MAXN); if (v.size() > 600) break; Items it(am, t); n = r.below(v.size() + 1); res = bl_array_insert_data(a, n, it.ptr(), t.size()); v.insert(v.begin() + n, t.begin(), t.end()); } break;
      case 7: { op = "insert_item"; Seq t{am.rnd_item(r)}; Items it(am, t); n = r.below(v.size() + 1); res = bl_array_insert_item(a, n, it.ptr()); v.insert(v.begin() + n, t[0]); } break;
      case 8: { op = "replace_item"; Seq t{am.rnd_item(r)}; Items it(am, t); n = r.below(v.size() + 2); res = bl_array_replace_item(a, n, it.ptr()); if (n < v.size()) v[n] = t[0]; else { VH_CHECK(res == BL_ERROR_INVALID_VALUE, "array:replace_oob", "replace_item out of range returned %u", res); res = 0; } } break;
      case 9: { op = "replace_data"; Seq t = rseq(MAXN / 2); if (v.size() > 600) break; Items it(am, t); size_t s = r.below(v.size() + 3), e = r.chance(1, 6) ? SIZE_MAX : r.below(v.size() + 3); res = bl_array_replace_data(a, s, e, it.ptr(), t.size()); e = std::min(e, v.size()); s = std::min(s, e); v.erase(v.begin() + s, v.begin() + e); v.insert(v.begin() + s, t.begin(), t.end()); } break;
      case 10: { op = "remove_range"; size_t s = r.below(v.size() + 3), e = r.chance(1, 6) ? SIZE_MAX : r.below(v.size() + 3); res = bl_array_remove_range(a, s, e); e = std::min(e, v.size()); s = std::min(s, e); v.erase(v.begin() + s, v.begin() + e); } break;
      case 11: op = "remove_index"; if (v.empty()) break; n = r.below(v.size()); res = bl_array_remove_index(a, n); v.erase(v.begin() + n); break;
      case 12: { op = "resize"; n = r.skew(200); bool z = r.chance(1, 3) && !am.obj; Seq t{am.rnd_item(r)}; if (z) t[0] = std::string(am.isz, 0); Items it(am, t); res = bl_array_resize(a, n, z ? nullptr : it.ptr()); v.resize(n, t[0]); } break;
      case 13: { op = "reserve"; n = r.chance(1, 30) ? (SIZE_MAX >> r.below(6)) - r.below(40) : r.skew(300); res = bl_array_reserve(a, n); if (n > (size_t(1) << 40)) { VH_CHECK(res != BL_SUCCESS, "array:huge", "reserve(%zu) succeeded", n); res = 0; } else VH_CHECK(res || bl_array_get_capacity(a) >= n, "array:capacity", "reserve(%zu) gave %zu", n, bl_array_get_capacity(a)); } break;
      case 14: op = "shrink"; res = bl_array_shrink(a); break;
      case 15: op = "clear"; res = bl_array_clear(a); v.clear(); break;
      case 16: op = "reset"; res = bl_array_reset(a); v.clear(); break;
      case 17: { BLModifyOp mo = BLModifyOp(r.below(4)); bool app = mo == BL_MODIFY_OP_APPEND_FIT || mo == BL_MODIFY_OP_APPEND_GROW; op = app ? "modify_op(append)" : "modify_op(assign)";
        if (r.chance(1, 30)) { n = (SIZE_MAX >> r.below(6)) - r.below(40); res = bl_array_modify_op(a, mo, n, &p); VH_CHECK(res != BL_SUCCESS, "array:huge", "modify_op(%zu) succeeded", n); res = 0; break; }
        if (v.size() > 600) break; n = r.skew(MAXN); Seq t; for (size_t q = 0; q < n; q++) t.push_back(am.rnd_item(r)); res = bl_array_modify_op(a, mo, n, &p); if (res) break; for (size_t q = 0; q < n; q++) put(p, q, t[q]); if (!app) v.clear(); v.insert(v.end(), t.begin(), t.end()); } break;
      case 18: { op = "insert_op"; if (v.size() > 600) break; size_t idx = r.below(v.size() + 1); if (r.chance(1, 30)) { n = (SIZE_MAX >> r.below(6)) - r.below(40); res = bl_array_insert_op(a, idx, n, &p); VH_CHECK(res != BL_SUCCESS, "array:huge", "insert_op(%zu) succeeded", n); res = 0; break; }
        n = r.skew(MAXN); Seq t; for (size_t q = 0; q < n; q++) t.push_back(am.rnd_item(r)); res = bl_array_insert_op(a, idx, n, &p); if (res) break; for (size_t q = 0; q < n; q++) put(p, q, t[q]); v.insert(v.begin() + idx, t.begin(), t.end()); } break;
      case 19: op = "make_mutable"; res = bl_array_make_mutable(a, &p); if (!res && v.size() && !am.obj) { n = r.below(v.size()); std::string s = am.rnd_item(r); memcpy((uint8_t*)p + n * am.isz, s.data(), am.isz); v[n] = s; } break;
      case 20: { op = "swap"; std::swap(h[i]._d, h[j]._d); std::swap(m[i], m[j]); } break;
      case 21: case 22: { // slices of the array's own content
        if (v.size() < 2 || v.size() > 500) break; size_t s = r.below(v.size()), q = r.below(v.size() - s + 1); Seq t(v.begin() + s, v.begin() + s + q); const uint8_t* d = (const uint8_t*)bl_array_get_data(a) + s * am.isz; unsigned w = unsigned(r.below(6));
        if (w == 0) { op = "assign_own_slice"; res = bl_array_assign_data(a, d, q); v = t; }
        else if (w == 1) { op = "append_own_slice"; res = bl_array_append_data(a, d, q); v.insert(v.end(), t.begin(), t.end()); }
        else if (w == 2) { op = "insert_own_slice"; n = r.below(v.size() + 1); res = bl_array_insert_data(a, n, d, q); v.insert(v.begin() + n, t.begin(), t.end()); }
        else if (w == 3) { op = "replace_with_own_slice"; size_t rs = r.below(v.size() + 1), re = rs + r.below(v.size() - rs + 1); res = bl_array_replace_data(a, rs, re, d, q); v.erase(v.begin() + rs, v.begin() + re); v.insert(v.begin() + rs, t.begin(), t.end()); }
        else if (w == 4) { op = "append_own_item"; std::string x = v[s]; res = bl_array_append_item(a, d); v.push_back(x); }
        else { op = "replace_with_own_item"; n = r.below(v.size()); std::string x = v[s]; res = bl_array_replace_item(a, n, d); v[n] = x; } } break;
      case 23: { op = "external"; if (am.obj) break; size_t cap = 1 + r.skew(60), sz = r.below(cap + 1); auto e = std::make_unique<Ext>(); e->bytes = cap * am.isz; e->mem = (uint8_t*)malloc(e->bytes); for (size_t q = 0; q < e->bytes; q++) e->mem[q] = uint8_t(r.below(256)); e->copy.assign((char*)e->mem, e->bytes); e->writable = r.chance(1, 2);
        Seq t; for (size_t q = 0; q < sz; q++) t.push_back(std::string((char*)e->mem + q * am.isz, am.isz));
        res = bl_array_assign_external_data(a, e->mem, sz, cap, e->writable ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ, ext_destroy, e.get()); v = t; exts.push_back(std::move(e)); } break;
      case 24: { op = "typed append/insert/replace"; uint64_t bits = r.u64(); std::string x; n = r.below(v.size() + 1); unsigned w = unsigned(r.below(3)); bool oob = w == 2 && (v.empty() || n == v.size());
        #define TYPED(SUF, T) { T val; memcpy(&val, &bits, sizeof(T)); x.assign((char*)&val, sizeof(T)); res = w == 0 ? bl_array_append_##SUF(a, val) : w == 1 ? bl_array_insert_##SUF(a, n, val) : bl_array_replace_##SUF(a, n, val); }
        switch (at.t) { case BL_OBJECT_TYPE_ARRAY_INT8: case BL_OBJECT_TYPE_ARRAY_UINT8: TYPED(u8, uint8_t) break; case BL_OBJECT_TYPE_ARRAY_INT16: case BL_OBJECT_TYPE_ARRAY_UINT16: TYPED(u16, uint16_t) break; case BL_OBJECT_TYPE_ARRAY_INT32: case BL_OBJECT_TYPE_ARRAY_UINT32: TYPED(u32, uint32_t) break; case BL_OBJECT_TYPE_ARRAY_INT64: case BL_OBJECT_TYPE_ARRAY_UINT64: TYPED(u64, uint64_t) break;
          case BL_OBJECT_TYPE_ARRAY_FLOAT32: bits = 0x3f800000 + r.below(100); TYPED(f32, float) break; case BL_OBJECT_TYPE_ARRAY_FLOAT64: bits = 0x3ff0000000000000ull + r.below(100); TYPED(f64, double) break; default: w = 9; }
        if (w == 0) v.push_back(x); else if (w == 1) v.insert(v.begin() + n, x); else if (w == 2) { if (oob) { VH_CHECK(res == BL_ERROR_INVALID_VALUE, "array:replace_oob", "typed replace out of range returned %u", res); res = 0; } else v[n] = x; } } break;
      case 25: { op = "init_weak/move"; BLArrayCore t; VH_OK(bl_array_init_weak(&t, a), "array:init"); BLArrayCore u; bl_array_init_move(&u, &t); check_array(u, v, am, "init_move"); check_array(t, Seq(), am, "moved from"); Seq it1{am.rnd_item(r)}; Items it(am, it1); bl_array_append_item(&u, it.ptr()); Seq w2 = v; w2.push_back(it1[0]); check_array(u, w2, am, "append to copy"); bl_array_destroy(&u); bl_array_destroy(&t); } break;
      case 26: { if (at.t != BL_OBJECT_TYPE_ARRAY_UINT32) break; op = "typed search"; BLArray<uint32_t>& A = *(BLArray<uint32_t>*)a; if (v.empty()) break; n = r.below(v.size()); uint32_t x; memcpy(&x, v[n].data(), 4); size_t f = std::find(v.begin(), v.end(), v[n]) - v.begin(); VH_CHECK(A.index_of(x) == f, "array:index_of", "index_of gave %zu expected %zu", A.index_of(x), f); size_t l = v.size() - 1; while (v[l] != v[n]) l--; VH_CHECK(A.last_index_of(x) == l, "array:index_of", "last_index_of"); VH_CHECK(A.first() == A[0] && A.last() == A[v.size() - 1], "array:index_of", "first/last"); } break;
    }
    if (st().verbose) printf("%u(%u): %s -> %u size %zu\n", i, j, op, unsigned(res), v.size()), fflush(stdout);
    VH_CHECK(res == BL_SUCCESS, "array:result", "%s returned %u (size %zu, item size %u)", op, unsigned(res), v.size(), am.isz);
    for (unsigned q = 0; q < POOL; q++) check_array(h[q], m[q], am, op);
    VH_CHECK(bl_array_equals(&h[i], &h[j]) == (m[i] == m[j]), "array:equals", "after %s: equals %d expected %d (sizes %zu %zu)", op, bl_array_equals(&h[i], &h[j]), m[i] == m[j], m[i].size(), m[j].size());
    for (auto& e : exts) { VH_CHECK(e->destroyed <= 1, "array:external", "destroy called %d times", e->destroyed); if (!e->destroyed && !e->writable) VH_CHECK(!memcmp(e->mem, e->copy.data(), e->bytes), "array:external_ro", "read-only external data were written by %s", op); }
    count(am.obj ? "object array ops" : "array ops");
  }
  for (unsigned i = 0; i < POOL; i++) bl_array_reset(&h[i]);
  for (auto& e : exts) VH_CHECK(e->destroyed == 1, "array:external", "external data destroyed %d times", e->destroyed);
  distinct(hs.h); sample("array type %u (item %u bytes): %u ops", unsigned(at.t), at.size, nops);
}

// ---------------------------------------------------------------- bit sets
struct ISet { // sorted disjoint non-adjacent [s, e)
  std::vector<std::pair<uint64_t, uint64_t>> v;
  void add(uint64_t s, uint64_t e) { if (s >= e) return; std::vector<std::pair<uint64_t, uint64_t>> o; bool done = false; for (auto& x : v) { if (x.second < s) o.push_back(x); else if (x.first > e) { if (!done) { o.push_back({s, e}); done = true; } o.push_back(x); } else { s = std::min(s, x.first); e = std::max(e, x.second); } } if (!done) o.push_back({s, e}); v = o; }
  void del(uint64_t s, uint64_t e) { if (s >= e) return; std::vector<std::pair<uint64_t, uint64_t>> o; for (auto& x : v) { if (x.second <= s || x.first >= e) { o.push_back(x); continue; } if (x.first < s) o.push_back({x.first, s}); if (x.second > e) o.push_back({e, x.second}); } v = o; }
  uint64_t card(uint64_t s, uint64_t e) const { uint64_t c = 0; for (auto& x : v) { uint64_t a = std::max(s, x.first), b = std::min(e, x.second); if (a < b) c += b - a; } return c; }
  bool has(uint64_t b) const { return card(b, b + 1) != 0; }
  bool subsumes(const ISet& o) const { for (auto& x : o.v) if (card(x.first, x.second) != x.second - x.first) return false; return true; }
  bool intersects(const ISet& o) const { for (auto& x : o.v) if (card(x.first, x.second)) return true; return false; }
  // Order of bit strings: at the first differing bit the set that has it is greater.
  int cmp(const ISet& o) const { size_t i = 0, n = std::min(v.size(), o.v.size()); for (; i < n; i++) { if (v[i] == o.v[i]) continue; if (v[i].first != o.v[i].first) return v[i].first < o.v[i].first ? 1 : -1; return v[i].second > o.v[i].second ? 1 : -1; } return v.size() > n ? 1 : o.v.size() > n ? -1 : 0; }
};

static uint32_t rbit(Rng& r, unsigned prof) {
  uint64_t b; switch (prof) { case 0: b = r.below(700); break; case 1: b = r.below(20000); break; case 2: b = r.u32(); break; case 3: b = 0xFFFFFFFFull - 1 - r.below(2000); break; default: b = r.below(40) * 128 + (r.chance(1, 2) ? 0 : r.below(128)); }
  if (r.chance(1, 4)) b &= ~31ull; if (r.chance(1, 8)) b &= ~127ull; return uint32_t(std::min<uint64_t>(b, 0xFFFFFFFEu));
}

static void check_bitset(const BLBitSet& s, const ISet& m, Rng& r, unsigned prof, const char* op) {
  uint64_t c = m.card(0, 1ull << 32);
  VH_CHECK(s.is_empty() == (c == 0), "bitset:is_empty", "after %s: is_empty %d cardinality %llu", op, s.is_empty(), (unsigned long long)c);
  // Iteration of ranges.
  uint64_t prev_end = 0; size_t k = 0; bool have = false; uint64_t cs = 0, ce = 0; std::vector<std::pair<uint64_t, uint64_t>> got;
  BLBitSetWordIterator it(s); uint64_t lastw = 0; bool first = true; size_t steps = 0;
  if (c < 200000 && prof != 9) {
    while (uint32_t w = it.next_word()) {
      uint64_t base = uint64_t(it.word_index()) * 32; VH_CHECK(first || it.word_index() > lastw, "bitset:iter", "after %s: word index not increasing", op); first = false; lastw = it.word_index();
      for (int b = 0; b < 32; b++) if (w & (0x80000000u >> b)) { uint64_t x = base + b; if (have && ce == x) ce++; else { if (have) got.push_back({cs, ce}); cs = x; ce = x + 1; have = true; } }
      if (++steps > 100000) fail("bitset:iter", "after %s: endless iteration", op);
    }
    if (have) got.push_back({cs, ce});
    VH_CHECK(got == m.v, "bitset:content", "after %s: %zu ranges, model has %zu (card %llu)", op, got.size(), m.v.size(), (unsigned long long)c);
  }
  (void)prev_end; (void)k;
  VH_CHECK(s.cardinality() == uint32_t(c), "bitset:cardinality", "after %s: cardinality %u expected %llu", op, s.cardinality(), (unsigned long long)c);
  VH_CHECK(s.cardinality() == uint32_t(c), "bitset:cardinality", "after %s: cached cardinality %u expected %llu", op, s.cardinality(), (unsigned long long)c);
  uint32_t a = 1, b = 1; bool g = s.get_range(&a, &b); VH_CHECK(g == (c != 0), "bitset:get_range", "after %s: get_range %d", op, g);
  if (c) VH_CHECK(a == m.v.front().first && b == m.v.back().second, "bitset:get_range", "after %s: range [%u,%u) expected [%llu,%llu)", op, a, b, (unsigned long long)m.v.front().first, (unsigned long long)m.v.back().second);
  for (int q = 0; q < 3; q++) {
    uint32_t x = rbit(r, prof); if (c && r.chance(1, 2)) { auto& iv = m.v[r.below(m.v.size())]; uint64_t t = r.chance(1, 2) ? iv.first : iv.second; t += r.range(-1, 1); x = uint32_t(std::min<uint64_t>(t > 0xFFFFFFFFFFull ? 0 : t, 0xFFFFFFFEu)); }
    VH_CHECK(s.has_bit(x) == m.has(x), "bitset:has_bit", "after %s: has_bit(%u) %d", op, x, s.has_bit(x));
    uint32_t y = r.chance(1, 3) ? x + uint32_t(r.below(300)) : rbit(r, prof); if (y < x) { if (r.chance(1, 4)) { VH_CHECK(s.cardinality_in_range(x, y) == 0 && !s.has_bits_in_range(x, y), "bitset:range_query", "inverted range"); continue; } std::swap(x, y); }
    uint64_t e = m.card(x, y); VH_CHECK(s.cardinality_in_range(x, y) == uint32_t(e), "bitset:range_cardinality", "after %s: cardinality_in_range(%u,%u)=%u expected %llu", op, x, y, s.cardinality_in_range(x, y), (unsigned long long)e);
    VH_CHECK(s.has_bits_in_range(x, y) == (e != 0), "bitset:range_query", "after %s: has_bits_in_range(%u,%u)=%d", op, x, y, s.has_bits_in_range(x, y));
  }
  uint32_t n = s.segment_count(); VH_CHECK(n <= std::max(s.segment_capacity(), 4u), "bitset:segments", "segments %u capacity %u", n, s.segment_capacity());
}

static void bitset_case(Rng& r) {
  BLBitSet h[POOL]; ISet m[POOL]; Hash hs; unsigned prof = unsigned(r.below(5)); unsigned nops = unsigned(r.range(5, 50));
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(POOL)), j = unsigned(r.below(POOL)); BLBitSet& s = h[i]; ISet& v = m[i]; const char* op = "?"; BLResult res = BL_SUCCESS;
    uint32_t x = rbit(r, prof), y = rbit(r, prof); if (r.chance(1, 2)) { uint64_t t = uint64_t(x) + r.skew(2000); y = uint32_t(std::min<uint64_t>(t, 0xFFFFFFFFu)); } if (y < x && !r.chance(1, 12)) std::swap(x, y);
    unsigned o = unsigned(r.below(19)); hs.add(o).add(x).add(y); bool badrange = x > y; // empty ranges are fine
    switch (o) {
      case 0: op = "assign_weak"; res = s.assign(h[j]); { ISet t = m[j]; v = t; } break;
      case 1: op = "assign_deep"; res = s.assign_deep(h[j]); { ISet t = m[j]; v = t; } break;
      case 2: op = "assign_move"; if (i == j) break; res = s.assign(std::move(h[j])); v = m[j]; m[j].v.clear(); break;
      case 3: case 4: op = "add_bit"; res = s.add_bit(x); v.add(x, uint64_t(x) + 1); break;
      case 5: op = "add_range"; res = s.add_range(x, y); if (badrange) { if (res == BL_ERROR_INVALID_VALUE) res = 0; } else v.add(x, y); break;
      case 6: op = "clear_bit"; if (r.chance(1, 2) && v.v.size()) { auto& iv = v.v[r.below(v.v.size())]; x = uint32_t(iv.first + r.below(iv.second - iv.first)); } res = s.clear_bit(x); v.del(x, uint64_t(x) + 1); break;
      case 7: op = "clear_range"; res = s.clear_range(x, y); if (badrange) { if (res == BL_ERROR_INVALID_VALUE) res = 0; } else v.del(x, y); break;
      case 8: op = "assign_range"; res = s.assign_range(x, y); if (badrange) { if (res == BL_ERROR_INVALID_VALUE) res = 0; else v.v.clear(); } else { v.v.clear(); v.add(x, y); } break;
      case 9: case 10: { op = o == 9 ? "add_words" : "assign_words"; uint32_t sw = x / 32, n = uint32_t(r.skew(40)); n = std::min<uint32_t>(n, (1u << 27) - sw); std::vector<uint32_t> w(n + 1); for (auto& q : w) q = r.chance(1, 3) ? 0 : r.chance(1, 3) ? 0xFFFFFFFFu : r.chance(1, 2) ? r.u32() : 1u << r.below(32); if (o == 10) v.v.clear(); uint64_t base = uint64_t(sw) * 32;
        if (n && sw + n == (1u << 27)) w[n - 1] &= ~1u; // the last index is reserved
        for (uint32_t q = 0; q < n; q++) for (int b = 0; b < 32; b++) if (w[q] & (0x80000000u >> b)) v.add(base + q * 32 + b, base + q * 32 + b + 1);
        res = o == 9 ? s.add_words(sw, w.data(), n) : s.assign_words(sw, w.data(), n); } break;
      case 11: op = "clear"; res = s.clear(); v.v.clear(); break;
      case 12: op = "reset"; res = s.reset(); v.v.clear(); break;
      case 13: op = "shrink"; res = s.shrink(); break;
      case 14: op = "optimize"; res = s.optimize(); break;
      case 15: op = "chop"; res = s.chop(x, y); if (badrange) { if (res == BL_ERROR_INVALID_VALUE) res = 0; else v.v.clear(); } else { v.del(0, x); v.del(y, 1ull << 32); } break;
      case 16: op = "swap"; s.swap(h[j]); std::swap(v, m[j]); break;
      case 17: { op = "builder"; BLBitSetBuilder bld(&s); unsigned n = unsigned(r.skew(60)); for (unsigned q = 0; q < n; q++) { uint32_t z = rbit(r, prof); if (r.chance(1, 3)) { uint32_t e = uint32_t(std::min<uint64_t>(uint64_t(z) + 1 + r.skew(1500), 0xFFFFFFFFu)); if (st().verbose) printf("  bld.add_range(%u,%u)\n", z, e); VH_OK(bld.add_range(z, e), "bitset:builder"); v.add(z, e); } else { if (st().verbose) printf("  bld.add_bit(%u)\n", z); VH_OK(bld.add_bit(z), "bitset:builder"); v.add(z, uint64_t(z) + 1); } } res = bld.commit(); } break;
      case 18: { op = "ctor"; BLBitSet t(s); BLBitSet u(std::move(t)); u.add_bit(x); ISet w = v; w.add(x, uint64_t(x) + 1); check_bitset(u, w, r, prof, "copy+add"); VH_CHECK(t.is_empty(), "bitset:move", "moved-from is not empty"); if (x < y) { BLBitSet z(x, y); ISet zi; zi.add(x, y); check_bitset(z, zi, r, prof, "ctor(range)"); } } break;
    }
    if (st().verbose) printf("%u(%u): %s(%u,%u) -> %u ranges %zu\n", i, j, op, x, y, unsigned(res), v.v.size()), fflush(stdout);
    VH_CHECK(res == BL_SUCCESS, "bitset:result", "%s(%u,%u) returned %u", op, x, y, unsigned(res));
    for (unsigned q = 0; q < POOL; q++) check_bitset(h[q], m[q], r, prof, op);
    VH_CHECK(h[i].equals(h[j]) == (m[i].v == m[j].v), "bitset:equals", "after %s: equals", op);
    VH_CHECK(h[i].subsumes(h[j]) == m[i].subsumes(m[j]), "bitset:subsumes", "after %s: subsumes gave %d", op, h[i].subsumes(h[j]));
    VH_CHECK(h[i].intersects(h[j]) == m[i].intersects(m[j]), "bitset:intersects", "after %s: intersects gave %d", op, h[i].intersects(h[j]));
    VH_CHECK(sgn(h[i].compare(h[j])) == m[i].cmp(m[j]), "bitset:compare", "after %s: compare %d expected %d", op, h[i].compare(h[j]), m[i].cmp(m[j]));
    count("bit set ops");
  }
  distinct(hs.h); sample("bit set profile %u: %u ops, final ranges %zu %zu %zu %zu", prof, nops, m[0].v.size(), m[1].v.size(), m[2].v.size(), m[3].v.size());
}

// ---------------------------------------------------------------- bit arrays
typedef std::vector<bool> BV;
static void check_bitarray(const BLBitArray& s, const BV& m, Rng& r, const char* op) {
  VH_CHECK(s.size() == m.size(), "bitarray:size", "after %s: size %u expected %zu", op, s.size(), m.size());
  VH_CHECK(s.is_empty() == m.empty(), "bitarray:is_empty", "after %s: is_empty", op);
  VH_CHECK(s.word_count() == (m.size() + 31) / 32 && s.capacity() >= s.size(), "bitarray:size", "after %s: words %u capacity %u", op, s.word_count(), s.capacity());
  const uint32_t* d = s.data(); uint32_t c = 0; size_t lo = SIZE_MAX, hi = 0;
  for (size_t i = 0; i < m.size(); i++) { bool b = (d[i / 32] >> (31 - i % 32)) & 1; VH_CHECK(b == m[i], "bitarray:content", "after %s: bit %zu of %zu is %d", op, i, m.size(), b); if (b) { c++; if (lo == SIZE_MAX) lo = i; hi = i + 1; } }
  if (m.size() % 32) VH_CHECK((d[m.size() / 32] & (0xFFFFFFFFu >> (m.size() % 32))) == 0, "bitarray:tail", "after %s: bits past the end (%zu) are not zero", op, m.size());
  VH_CHECK(s.cardinality() == c, "bitarray:cardinality", "after %s: cardinality %u expected %u", op, s.cardinality(), c);
  uint32_t a, b; bool g = bl_bit_array_get_range(&s, &a, &b); VH_CHECK(g == (c != 0) && (!c || (a == lo && b == hi)), "bitarray:get_range", "after %s: range [%u,%u) expected [%zu,%zu)", op, a, b, lo, hi);
  for (int q = 0; q < 3; q++) {
    uint32_t x = uint32_t(r.below(m.size() + 40)), y = r.chance(1, 8) ? 0xFFFFFFFFu : uint32_t(r.below(m.size() + 40)); bool e = x < m.size() && m[x]; VH_CHECK(s.has_bit(x) == e, "bitarray:has_bit", "after %s: has_bit(%u)", op, x);
    uint32_t k = 0; for (size_t i = x; i < y && i < m.size(); i++) k += m[i]; VH_CHECK(s.cardinality_in_range(x, y) == k, "bitarray:range_cardinality", "after %s: cardinality_in_range(%u,%u)=%u expected %u (size %zu)", op, x, y, s.cardinality_in_range(x, y), k, m.size());
    VH_CHECK(s.has_bits_in_range(x, y) == (k != 0), "bitarray:range_query", "after %s: has_bits_in_range(%u,%u)", op, x, y);
  }
}

static void bitarray_case(Rng& r) {
  BLBitArray h[POOL]; BV m[POOL]; Hash hs; unsigned nops = unsigned(r.range(5, 45));
  for (unsigned k = 0; k < nops; k++) {
    unsigned i = unsigned(r.below(POOL)), j = unsigned(r.below(POOL)); BLBitArray& s = h[i]; BV& v = m[i]; const char* op = "?"; BLResult res = BL_SUCCESS; size_t n = v.size();
    uint32_t x = uint32_t(r.below(n + (r.chance(1, 6) ? 10 : 0))), y = r.chance(1, 8) ? 0xFFFFFFFFu : uint32_t(r.below(n + 10)); if (y < x && !r.chance(1, 12)) std::swap(x, y);
    if (r.chance(1, 4)) x &= ~31u;
    uint32_t nw = uint32_t(r.skew(12)); std::vector<uint32_t> w(nw ? nw : 1); for (auto& q : w) q = r.chance(1, 4) ? 0 : r.chance(1, 4) ? 0xFFFFFFFFu : r.u32(); auto wb = [&](size_t q) { return bool((w[q / 32] >> (31 - q % 32)) & 1); };
    unsigned o = unsigned(r.below(25)); hs.add(o).add(x).add(y).add(uint32_t(n)); bool oob = x >= n, bad = x >= y;
    #define BA_INV(cond) if (cond) { VH_CHECK(res == BL_ERROR_INVALID_VALUE, "bitarray:invalid", "%s(%u,%u) with size %zu returned %u", op, x, y, n, unsigned(res)); res = 0; }
    switch (o) {
      case 0: op = "assign_weak"; res = s.assign(h[j]); { BV t = m[j]; v = t; } break;
      case 1: op = "assign_move"; if (i == j) break; res = s.assign(std::move(h[j])); v = m[j]; m[j].clear(); break;
      case 2: op = "assign_words"; res = bl_bit_array_assign_words(&s, w.data(), nw); v.clear(); for (size_t q = 0; q < nw * 32; q++) v.push_back(wb(q)); break;
      case 3: case 4: { op = "resize"; uint32_t z = uint32_t(r.chance(1, 3) ? r.below(200) : r.skew(1500)); if (r.chance(1, 3)) z &= ~31u; res = s.resize(z); v.resize(z, false); } break;
      case 5: op = "reserve"; { uint32_t z = uint32_t(r.skew(3000)); res = s.reserve(z); VH_CHECK(res || s.capacity() >= z, "bitarray:size", "reserve(%u) gave %u", z, s.capacity()); } break;
      case 6: op = "shrink"; res = s.shrink(); break;
      case 7: op = "clear"; res = s.clear(); v.clear(); break;
      case 8: op = "reset"; res = s.reset(); v.clear(); break;
      case 9: op = "set_bit"; res = s.set_bit(x); BA_INV(oob) else v[x] = true; break;
      case 10: op = "clear_bit"; res = s.clear_bit(x); BA_INV(oob) else v[x] = false; break;
      case 11: op = "replace_bit"; { bool b = r.chance(1, 2); res = s.replace_bit(x, b); BA_INV(oob) else v[x] = b; } break;
      case 12: op = "fill_range"; res = s.fill_range(x, y); BA_INV(bad || oob) else for (size_t q = x; q < y && q < n; q++) v[q] = true; break;
      case 13: op = "clear_range"; res = s.clear_range(x, y); BA_INV(bad || oob) else for (size_t q = x; q < y && q < n; q++) v[q] = false; break;
      case 14: op = "fill_words"; res = s.fill_words(x, w.data(), nw); BA_INV(oob) else for (size_t q = 0; q < nw * 32 && x + q < n; q++) v[x + q] = v[x + q] || wb(q); break;
      case 15: op = "clear_words"; res = s.clear_words(x, w.data(), nw); BA_INV(oob) else for (size_t q = 0; q < nw * 32 && x + q < n; q++) v[x + q] = v[x + q] && !wb(q); break;
      case 16: op = "replace_words"; res = s.replace_words(x, w.data(), nw); BA_INV(oob) else for (size_t q = 0; q < nw * 32 && x + q < n; q++) v[x + q] = wb(q); break;
      case 17: op = "replace_word"; res = s.replace_word(x, w[0]); BA_INV(oob) else for (size_t q = 0; q < 32 && x + q < n; q++) v[x + q] = wb(q); break;
      case 18: op = "clear_word"; res = s.clear_word(x, w[0]); BA_INV(oob) else for (size_t q = 0; q < 32 && x + q < n; q++) v[x + q] = v[x + q] && !wb(q); break;
      case 19: op = "append_bit"; { unsigned z = unsigned(r.below(40)); for (unsigned q = 0; q < z && !res; q++) { bool b = r.chance(1, 2); res = s.append_bit(b); v.push_back(b); } } break;
      case 20: op = "append_word"; if (n > 4000) break; res = s.append_word(w[0]); for (size_t q = 0; q < 32; q++) v.push_back(wb(q)); break;
      case 21: op = "append_words"; if (n > 4000) break; res = s.append_words(w.data(), nw); for (size_t q = 0; q < nw * 32; q++) v.push_back(wb(q)); break;
      case 22: { op = "replace_op"; uint32_t z = uint32_t(r.skew(700)); uint32_t* d = nullptr; res = bl_bit_array_replace_op(&s, z, &d); if (res) break; v.assign(z, false); for (size_t q = 0; q < (z + 31) / 32; q++) VH_CHECK(d[q] == 0, "bitarray:replace_op", "replace_op gave a non-zero word"); if (z) { uint32_t b = uint32_t(r.below(z)); d[b / 32] |= 0x80000000u >> (b % 32); v[b] = true; } } break;
      case 23: op = "swap"; s.swap(h[j]); std::swap(v, m[j]); break;
      case 24: { op = "copy"; BLBitArray t(s), u(std::move(t)); u.append_bit(true); BV z = v; z.push_back(true); check_bitarray(u, z, r, "copy+append"); VH_CHECK(t.is_empty(), "bitarray:move", "moved-from is not empty"); } break;
    }
    if (st().verbose) printf("%u(%u): %s(%u,%u) nw %u -> %u size %zu\n", i, j, op, x, y, nw, unsigned(res), v.size()), fflush(stdout);
    VH_CHECK(res == BL_SUCCESS, "bitarray:result", "%s(%u,%u) size %zu returned %u", op, x, y, n, unsigned(res));
    for (unsigned q = 0; q < POOL; q++) check_bitarray(h[q], m[q], r, op);
    VH_CHECK(h[i].equals(h[j]) == (m[i] == m[j]), "bitarray:equals", "after %s: equals", op);
    bool sub = true, inter = false; for (size_t q = 0; q < m[j].size(); q++) if (m[j][q]) { bool a = q < m[i].size() && m[i][q]; if (!a) sub = false; else inter = true; }
    VH_CHECK(h[i].subsumes(h[j]) == sub, "bitarray:subsumes", "after %s: subsumes expected %d", op, sub); VH_CHECK(h[i].intersects(h[j]) == inter, "bitarray:intersects", "after %s: intersects expected %d", op, inter);
    int e = std::lexicographical_compare(m[i].begin(), m[i].end(), m[j].begin(), m[j].end()) ? -1 : m[i] == m[j] ? 0 : 1; VH_CHECK(sgn(h[i].compare(h[j])) == e, "bitarray:compare", "after %s: compare %d expected %d (sizes %zu %zu)", op, h[i].compare(h[j]), e, m[i].size(), m[j].size());
    count("bit array ops");
  }
  distinct(hs.h); sample("bit array: %u ops, final sizes %zu %zu %zu %zu", nops, m[0].size(), m[1].size(), m[2].size(), m[3].size());
}

void vh_init() {}
void vh_case(uint64_t id, Rng& r) {
  const std::string& m = st().mode;
  if (m == "P02") { if (id % 16 < 8) string_case(r); else array_case(r); }
  else if (m == "P03") bitset_case(r);
  else if (m == "P04") bitarray_case(r);
  else VH_ASSUME(!"mode");
}
void vh_finish() {}
