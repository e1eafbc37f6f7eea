// P36: the file API against a model of the files, with short, interrupted and failing system calls.
// The system calls of the library are wrapped at link time: they transfer less, fail on request and keep a descriptor and mapping ledger.
#include "vh.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <stdarg.h>
using namespace vh;
typedef std::vector<uint8_t> Bytes;

namespace inj {
bool on = false, faults = false; Rng* r = nullptr; int pfail = 0, pshort = 0, peof = 0; std::set<int> errs; uint64_t calls = 0, injected = 0, shorts = 0, eofs = 0; bool mmap_failed = false, close_failed = false, eof = false, fstat_failed = false;
std::set<int> fds; std::map<void*, size_t> maps; long bad_close = 0, bad_unmap = 0;
static void begin() { errs.clear(); mmap_failed = close_failed = eof = fstat_failed = false; on = true; }
static void end() { on = false; }
static int pick(std::initializer_list<int> l) { return l.begin()[r->below(l.size())]; }
static bool fail(std::initializer_list<int> l) { calls++; if (!on || !faults || !pfail || !r->chance(uint64_t(pfail), 100)) return false; int e = pick(l); errs.insert(e); injected++; errno = e; return true; }
}
extern "C" {
int __real_open64(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); off64_t __real_lseek64(int, off64_t, int); int __real_ftruncate64(int, off64_t); int __real_fstat64(int, struct stat64*); int __real_stat64(const char*, struct stat64*); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
int __wrap_open64(const char* n, int f, ...) { va_list ap; va_start(ap, f); mode_t m = va_arg(ap, mode_t); va_end(ap); if (inj::fail({EINTR, EMFILE, ENFILE, EACCES, ENOSPC, EROFS, ENOMEM})) return -1; int fd = __real_open64(n, f, m); if (fd >= 0 && inj::on) inj::fds.insert(fd); return fd; }
int __wrap_close(int fd) { int rc = 0; if (inj::on) { if (!inj::fds.erase(fd)) inj::bad_close++; if (inj::fail({EIO, EINTR, EDQUOT})) { int e = errno; __real_close(fd); inj::close_failed = true; errno = e; return -1; } } rc = __real_close(fd); return rc; }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (inj::fail({EINTR, EIO, EAGAIN})) return -1; if (inj::on && inj::faults) { if (inj::peof && inj::r->chance(uint64_t(inj::peof), 100)) { inj::eof = true; inj::eofs++; return 0; } if (n > 1 && inj::pshort && inj::r->chance(uint64_t(inj::pshort), 100)) { n = 1 + inj::r->skew(n - 1); inj::shorts++; } } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (inj::fail({EINTR, EIO, ENOSPC, EDQUOT, EFBIG})) return -1; if (inj::on && inj::faults && n > 1 && inj::pshort && inj::r->chance(uint64_t(inj::pshort), 100)) { n = 1 + inj::r->skew(n - 1); inj::shorts++; } return __real_write(fd, b, n); }
off64_t __wrap_lseek64(int fd, off64_t o, int w) { if (inj::fail({EOVERFLOW, ESPIPE})) return -1; return __real_lseek64(fd, o, w); }
int __wrap_ftruncate64(int fd, off64_t s) { if (inj::fail({EINTR, EIO, EROFS})) return -1; return __real_ftruncate64(fd, s); }
int __wrap_fstat64(int fd, struct stat64* s) { if (inj::fail({EIO, EOVERFLOW, ENOMEM})) { inj::fstat_failed = true; return -1; } return __real_fstat64(fd, s); }
int __wrap_stat64(const char* n, struct stat64* s) { if (inj::fail({EIO, EACCES, ELOOP, ENOMEM})) return -1; return __real_stat64(n, s); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { if (inj::on && fd >= 0 && inj::faults && inj::r->chance(uint64_t(inj::pfail ? 40 : 0), 100)) { errno = inj::pick({ENOMEM, ENODEV, EAGAIN, EACCES}); inj::errs.insert(errno); inj::mmap_failed = true; inj::injected++; return MAP_FAILED; } void* q = __real_mmap(a, n, p, f, fd, o); if (inj::on && fd >= 0 && q != MAP_FAILED) inj::maps[q] = n; return q; }
int __wrap_munmap(void* a, size_t n) { if (inj::on) { auto it = inj::maps.find(a); if (it != inj::maps.end()) { if (it->second != n) inj::bad_unmap++; inj::maps.erase(it); } } return __real_munmap(a, n); }
}

namespace {
BLResult code_of(int e) { switch (e) { case EINTR: return BL_ERROR_INTERRUPTED; case EMFILE: return BL_ERROR_TOO_MANY_OPEN_FILES; case ENFILE: return BL_ERROR_TOO_MANY_OPEN_FILES_BY_OS; case EACCES: return BL_ERROR_ACCESS_DENIED; case ENOSPC: case EDQUOT: return BL_ERROR_NO_SPACE_LEFT; case EROFS: return BL_ERROR_READ_ONLY_FS; case ENOMEM: return BL_ERROR_OUT_OF_MEMORY; case EIO: return BL_ERROR_IO; case EAGAIN: return BL_ERROR_TRY_AGAIN; case EFBIG: return BL_ERROR_FILE_TOO_LARGE; case EOVERFLOW: return BL_ERROR_OVERFLOW; case ESPIPE: return BL_ERROR_INVALID_SEEK; case ELOOP: return BL_ERROR_SYMLINK_LOOP; case ENODEV: return BL_ERROR_NO_DEVICE; } return BL_ERROR_UNKNOWN_SYSTEM_ERROR; }
// Whether an error result is explained by a fault injected into this call.
bool excused(BLResult e) { for (int x : inj::errs) if (code_of(x) == e) return true; return false; }

struct File { bool exists = false; Bytes d; }; struct Handle { BLFile f; bool open = false; int file = -1; bool rd = false, wr = false; int64_t pos = 0; };
const int NF = 6; // Files 4 and 5 are the ones that are mapped: never changed while mapped.
File g_file[NF]; std::string g_dir, g_name[NF];
struct Call { Call() { inj::begin(); } ~Call() { inj::end(); } };
#define CALL(R, EXPR) BLResult R; { Call c_; R = (EXPR); }

Bytes real_content(const std::string& n, bool& exists) { Bytes b; int fd = __real_open64(n.c_str(), O_RDONLY); exists = fd >= 0; if (fd < 0) return b; struct stat64 s; __real_fstat64(fd, &s); b.resize(size_t(s.st_size)); size_t at = 0; while (at < b.size()) { ssize_t k = __real_read(fd, &b[at], b.size() - at); if (k <= 0) break; at += size_t(k); } __real_close(fd); b.resize(at); return b; }
void check_file(int i, const char* when) { bool ex; Bytes b = real_content(g_name[i], ex); evals(); VH_CHECK(ex == g_file[i].exists, "file-exists", "after %s: file %d exists=%d", when, i, ex); size_t k = 0; while (k < b.size() && k < g_file[i].d.size() && b[k] == g_file[i].d[k]) k++; VH_CHECK(b == g_file[i].d, "file-content", "after %s: file %d has %zu bytes (model %zu), differs at %zu", when, i, b.size(), g_file[i].d.size(), k); }
size_t rnd_size(Rng& r) { switch (r.below(6)) { case 0: return r.below(5); case 1: return r.below(300); case 2: return 4096 - 2 + r.below(5); case 3: return 16384 - 2 + r.below(5); case 4: return r.skew(70000); default: return r.below(3000); } }
Bytes rnd_bytes(Rng& r, size_t n) { Bytes b(n); uint32_t x = r.u32() | 1; for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; b[i] = uint8_t(x >> 24); } return b; }
void put_file(int i, const Bytes& b) { int fd = __real_open64(g_name[i].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t at = 0; while (at < b.size()) { ssize_t k = __real_write(fd, &b[at], b.size() - at); if (k <= 0) break; at += size_t(k); } __real_close(fd); g_file[i].exists = true; g_file[i].d = b; }
void remove_file(int i) { unlink(g_name[i].c_str()); g_file[i].exists = false; g_file[i].d.clear(); }

struct Mapped { BLArray<uint8_t> a; Bytes want; };
BLArray<uint8_t> g_png; BLImage g_im; BLArray<uint8_t> g_font;
}

void vh_init() {
  g_dir = st().scratch + "/f" + std::to_string(getpid()); mkdir(g_dir.c_str(), 0755); for (int i = 0; i < NF; i++) g_name[i] = g_dir + "/file" + std::to_string(i); mkdir((g_dir + "/sub").c_str(), 0755);
  g_im.create(37, 29, BL_FORMAT_PRGB32); BLImageData d; g_im.make_mutable(&d); Rng r(7); for (int y = 0; y < 29; y++) for (int x = 0; x < 37 * 4; x++) ((uint8_t*)d.pixel_data + y * d.stride)[x] = x % 4 == 3 ? 255 : uint8_t(r.u32());
  BLImageCodec c; c.find_by_name("PNG"); g_im.write_to_data(g_png, c); BLFileSystem::read_file((st().corpus + "/glyfTest.ttf").c_str(), g_font); VH_CHECK(!g_font.is_empty(), "corpus", "no font");
}
void vh_finish() { count("p36_syscalls", inj::calls); count("p36_injected", inj::injected); count("p36_short_transfers", inj::shorts); count("p36_early_ends", inj::eofs); for (int i = 0; i < NF; i++) unlink(g_name[i].c_str()); rmdir((g_dir + "/sub").c_str()); rmdir(g_dir.c_str()); }

void vh_case(uint64_t id, Rng& r) {
  inj::on = false; inj::r = &r; inj::fds.clear(); inj::maps.clear(); for (int i = 0; i < NF; i++) if (r.chance(1, 3) || i >= 4) put_file(i, rnd_bytes(r, rnd_size(r))); else remove_file(i);
  inj::faults = r.chance(2, 3); inj::pfail = r.chance(1, 2) ? int(r.below(30)) : 0; inj::pshort = r.chance(2, 3) ? int(r.range(10, 95)) : 0; inj::peof = r.chance(1, 6) ? int(r.below(20)) : 0;
  std::vector<Handle> hs(3); std::vector<Mapped> maps; Hash hist; int nops = 6 + int(r.below(40));
  for (int op = 0; op < nops; op++) {
    int k = int(r.below(20)); Handle& h = hs[r.below(3)]; hist.add(uint64_t(k)); char when[96]; snprintf(when, sizeof when, "op %d kind %d (case %llu)", op, k, (unsigned long long)id); inj::bad_close = inj::bad_unmap = 0; count("p36_ops");
    switch (k) {
      case 0: case 1: case 2: { // open
        int i = int(r.below(4)); uint32_t fl = uint32_t(r.below(4)); if (r.chance(5, 6) && !fl) fl = 3; if (r.chance(1, 3)) fl |= BL_FILE_OPEN_CREATE; if (r.chance(1, 5)) fl |= BL_FILE_OPEN_TRUNCATE; if (r.chance(1, 8)) fl |= BL_FILE_OPEN_CREATE_EXCLUSIVE; if (r.chance(1, 10)) fl |= BL_FILE_OPEN_DELETE | (r.chance(1, 2) ? BL_FILE_OPEN_RW_EXCLUSIVE : 0) | (r.chance(1, 2) ? BL_FILE_OPEN_DELETE_EXCLUSIVE : 0);
        bool rd = fl & 1, wr = fl & 2, create = fl & (BL_FILE_OPEN_CREATE | BL_FILE_OPEN_CREATE_EXCLUSIVE), excl = fl & BL_FILE_OPEN_CREATE_EXCLUSIVE, trunc = fl & BL_FILE_OPEN_TRUNCATE; std::string name = g_name[i]; BLResult want = BL_SUCCESS; int special = r.chance(1, 10) ? 1 + int(r.below(4)) : 0;
        if (special == 1) name = g_dir + "/none/x"; if (special == 2) name = g_name[4] + "/x"; if (special == 3) name = g_dir + "/" + std::string(300, 'x'); if (special == 4) name = g_dir + "/sub";
        if ((!rd && !wr) || ((create || trunc) && !wr)) want = BL_ERROR_INVALID_VALUE; else if (special == 1) want = BL_ERROR_NO_ENTRY; else if (special == 2) want = BL_ERROR_NOT_DIRECTORY; else if (special == 3) want = BL_ERROR_FILE_NAME_TOO_LONG; else if (special == 4) { if (!wr) break; want = excl ? BL_ERROR_ALREADY_EXISTS : BL_ERROR_NOT_FILE; } else if (!g_file[i].exists && !create) want = BL_ERROR_NO_ENTRY; else if (g_file[i].exists && excl) want = BL_ERROR_ALREADY_EXISTS;
        CALL(e, h.f.open(name.c_str(), BLFileOpenFlags(fl))); evals();
        VH_CHECK(e == want || excused(e), "open-result", "%s: flags 0x%x gave %u, expected %u", when, fl, e, want);
        if (e == BL_SUCCESS) { h.open = true; h.file = i; h.rd = rd; h.wr = wr; h.pos = 0; if (!g_file[i].exists) g_file[i].exists = true; if (trunc) g_file[i].d.clear(); for (auto& o : hs) (void)o; count("p36_opens"); }
        break; }
      case 3: case 4: case 5: { // read
        size_t n = r.chance(1, 10) ? 0 : rnd_size(r); std::unique_ptr<uint8_t[]> buf(new uint8_t[n ? n : 1]); memset(buf.get(), 0xA5, n); size_t got = 12345;
        CALL(e, h.f.read(buf.get(), n, &got)); evals();
        if (!h.open) { VH_CHECK(e == BL_ERROR_INVALID_HANDLE && got == 0, "closed-read", "%s: %u, %zu", when, e, got); break; }
        if (!h.rd) { VH_CHECK(e == BL_ERROR_NOT_PERMITTED || ((n == 0 || inj::eof) && e == BL_SUCCESS) || excused(e), "write-only-read", "%s: %u", when, e); VH_CHECK(got == 0, "write-only-read", "%s: count %zu", when, got); break; }
        const Bytes& d = g_file[h.file].d; size_t avail = size_t(h.pos) < d.size() ? d.size() - size_t(h.pos) : 0, full = std::min(n, avail);
        VH_CHECK(got <= full, "read-count", "%s: read %zu of %zu bytes (file %zu at %lld) reported", when, got, n, d.size(), (long long)h.pos);
        if (e == BL_SUCCESS) { VH_CHECK(got == full || inj::eof, "read-count", "%s: %zu instead of %zu", when, got, full); if (got) count("p36_reads"); } else { VH_CHECK(excused(e), "read-error", "%s: %u", when, e); if (got) count("p36_partial_reads"); }
        VH_CHECK(got == 0 || memcmp(buf.get(), &d[size_t(h.pos)], got) == 0, "read-bytes", "%s: %zu bytes at %lld differ from the file", when, got, (long long)h.pos);
        for (size_t x = got; x < n; x++) VH_CHECK(buf[x] == 0xA5, "read-past-count", "%s: byte %zu behind the %zu reported ones written", when, x, got);
        h.pos += int64_t(got); VH_CHECK(__real_lseek64(int(h.f.handle), 0, SEEK_CUR) == h.pos, "read-position", "%s", when); break; }
      case 6: case 7: case 8: { // write
        size_t n = r.chance(1, 10) ? 0 : rnd_size(r); Bytes b = rnd_bytes(r, n); size_t got = 12345;
        CALL(e, h.f.write(b.data(), n, &got)); evals();
        if (!h.open) { VH_CHECK(e == BL_ERROR_INVALID_HANDLE && got == 0, "closed-write", "%s: %u, %zu", when, e, got); break; }
        if (!h.wr) { VH_CHECK(e == BL_ERROR_NOT_PERMITTED || (n == 0 && e == BL_SUCCESS) || excused(e), "read-only-write", "%s: %u", when, e); VH_CHECK(got == 0, "read-only-write", "%s: count %zu", when, got); check_file(h.file, when); break; }
        VH_CHECK(got <= n, "write-count", "%s: %zu of %zu", when, got, n); if (e == BL_SUCCESS) { VH_CHECK(got == n, "write-count", "%s: success with %zu of %zu", when, got, n); count("p36_writes"); } else { VH_CHECK(excused(e), "write-error", "%s: %u", when, e); if (got) count("p36_partial_writes"); }
        Bytes& d = g_file[h.file].d; if (got) { if (d.size() < size_t(h.pos) + got) d.resize(size_t(h.pos) + got, 0); memcpy(&d[size_t(h.pos)], b.data(), got); } h.pos += int64_t(got);
        VH_CHECK(__real_lseek64(int(h.f.handle), 0, SEEK_CUR) == h.pos, "write-position", "%s", when); check_file(h.file, when); break; }
      case 9: case 10: { // seek
        int w = int(r.below(r.chance(1, 6) ? 6 : 3)); int64_t off = r.chance(1, 8) ? -int64_t(r.below(9000)) : int64_t(r.skew(20000)); if (w && r.chance(1, 2)) off = -off; int64_t out = 777;
        CALL(e, bl_file_seek(&h.f, off, BLFileSeekType(w), &out)); evals();
        if (w > 2) { VH_CHECK(e != BL_SUCCESS && out == -1, "seek-type", "%s: type %d gave %u, %lld", when, w, e, (long long)out); if (h.open) VH_CHECK(__real_lseek64(int(h.f.handle), 0, SEEK_CUR) == h.pos, "seek-type", "%s: moved", when); break; }
        if (!h.open) { VH_CHECK(e == BL_ERROR_INVALID_HANDLE && out == -1, "closed-seek", "%s: %u", when, e); break; }
        int64_t want = (w == 0 ? 0 : w == 1 ? h.pos : int64_t(g_file[h.file].d.size())) + off;
        if (e == BL_SUCCESS) { VH_CHECK(want >= 0 && out == want, "seek-position", "%s: %lld instead of %lld", when, (long long)out, (long long)want); h.pos = want; count("p36_seeks"); } else { VH_CHECK((want < 0 && e == BL_ERROR_INVALID_VALUE) || excused(e), "seek-error", "%s: %u", when, e); VH_CHECK(out == -1, "seek-error", "%s: position %lld with an error", when, (long long)out); }
        VH_CHECK(__real_lseek64(int(h.f.handle), 0, SEEK_CUR) == h.pos, "seek-position", "%s", when); break; }
      case 11: { // truncate
        int64_t n = r.chance(1, 10) ? -1 - int64_t(r.below(100)) : int64_t(rnd_size(r));
        CALL(e, h.f.truncate(n)); evals();
        if (!h.open) { VH_CHECK(e == BL_ERROR_INVALID_HANDLE, "closed-truncate", "%s: %u", when, e); break; }
        if (n < 0) { VH_CHECK(e == BL_ERROR_INVALID_VALUE, "truncate-negative", "%s: %u", when, e); check_file(h.file, when); break; }
        if (!h.wr) { VH_CHECK(e == BL_ERROR_NOT_PERMITTED || excused(e), "read-only-truncate", "%s: %u", when, e); check_file(h.file, when); break; }
        if (e == BL_SUCCESS) { g_file[h.file].d.resize(size_t(n), 0); count("p36_truncates"); } else VH_CHECK(excused(e), "truncate-error", "%s: %u", when, e);
        VH_CHECK(__real_lseek64(int(h.f.handle), 0, SEEK_CUR) == h.pos, "truncate-position", "%s", when); check_file(h.file, when); break; }
      case 12: { // info and size, by handle and by name
        int i = int(r.below(NF)); bool by_name = r.chance(1, 2); std::string name = g_name[i]; int special = r.chance(1, 5) ? 1 + int(r.below(3)) : 0; if (special == 1) name = g_dir; if (special == 2) name = "/dev/null"; if (special == 3) name = g_dir + "/none";
        if (!by_name && h.open) name = g_name[h.file], i = h.file;
        if (g_file[i].exists && (by_name ? special == 0 : h.open)) { struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = time_t(r.below(4000000000ull)); ts[0].tv_nsec = ts[1].tv_nsec = long(r.below(1000000000)); utimensat(AT_FDCWD, g_name[i].c_str(), ts, 0); chmod(g_name[i].c_str(), mode_t(r.below(07000 | 0777) & ~01000u) | 0600); }
        BLFileInfo fi; memset((void*)&fi, 0x5A, sizeof fi); uint64_t size = 777; BLResult e, e2 = BL_SUCCESS; bool ex1;
        if (by_name) { Call c; e = BLFileSystem::file_info(name.c_str(), &fi); ex1 = excused(e); } else { { Call c; e = h.f.get_info(&fi); } ex1 = excused(e); { Call c; e2 = h.f.get_size(&size); } }
        evals(); struct stat64 s; bool have = by_name || h.open ? __real_stat64(name.c_str(), &s) == 0 : false;
        if (!by_name && !h.open) { VH_CHECK(e == BL_ERROR_INVALID_HANDLE && e2 == BL_ERROR_INVALID_HANDLE && size == 0 && fi.flags == 0, "closed-info", "%s: %u %u", when, e, e2); break; }
        if (!by_name) { if (e2 == BL_SUCCESS) VH_CHECK(size == g_file[h.file].d.size(), "file-size", "%s: %llu instead of %zu", when, (unsigned long long)size, g_file[h.file].d.size()); else VH_CHECK(excused(e2) && size == 0, "size-error", "%s: %u", when, e2); }
        if (e != BL_SUCCESS) { VH_CHECK(ex1 || (!have && e == BL_ERROR_NO_ENTRY), "info-error", "%s: %u for %s", when, e, name.c_str()); VH_CHECK(fi.flags == 0 && fi.size == 0, "info-error", "%s: information with an error", when); break; }
        VH_CHECK(have, "info-result", "%s: success for a missing file", when);
        uint32_t want = BL_FILE_INFO_VALID | (s.st_mode & 0777) | (s.st_mode & S_ISUID ? BL_FILE_INFO_SUID : 0) | (s.st_mode & S_ISGID ? BL_FILE_INFO_SGID : 0) | (S_ISREG(s.st_mode) ? BL_FILE_INFO_REGULAR : 0) | (S_ISDIR(s.st_mode) ? BL_FILE_INFO_DIRECTORY : 0) | (S_ISCHR(s.st_mode) ? BL_FILE_INFO_CHAR_DEVICE : 0);
        VH_CHECK(fi.flags == want, "info-flags", "%s: 0x%x instead of 0x%x", when, fi.flags, want); VH_CHECK(fi.size == (S_ISREG(s.st_mode) ? uint64_t(s.st_size) : 0), "info-size", "%s: %llu", when, (unsigned long long)fi.size); VH_CHECK(fi.uid == s.st_uid && fi.gid == s.st_gid, "info-owner", "%s", when);
        int64_t mt = int64_t(s.st_mtim.tv_sec) * 1000000 + s.st_mtim.tv_nsec / 1000; if (S_ISREG(s.st_mode)) VH_CHECK(fi.modified_time == mt, "info-time", "%s: %lld instead of %lld microseconds", when, (long long)fi.modified_time, (long long)mt); count("p36_infos"); break; }
      case 13: { // close, move, reset, swap
        if (r.chance(1, 3)) { Handle& o = hs[r.below(3)]; if (&o == &h) break; Call c; h.f = static_cast<BLFile&&>(o.f); h.open = o.open; h.file = o.file; h.rd = o.rd; h.wr = o.wr; h.pos = o.pos; o.open = false; VH_CHECK(!o.f.is_open(), "move", "%s", when); break; }
        CALL(e, r.chance(1, 4) ? bl_file_reset(&h.f) : h.f.close()); evals(); VH_CHECK(inj::close_failed ? excused(e) : e == BL_SUCCESS, "close-result", "%s: %u", when, e); h.open = false; VH_CHECK(!h.f.is_open(), "close-handle", "%s", when); count("p36_closes"); break; }
      case 14: case 15: case 16: { // whole files
        int i = int(r.below(NF)); uint32_t fl = uint32_t(r.below(4)) | (r.chance(1, 3) ? BL_FILE_READ_MMAP_NO_FALLBACK : 0); if (i < 4) fl &= ~1u; else if (r.chance(2, 3)) fl |= 1; size_t mx = r.chance(1, 2) ? 0 : rnd_size(r); bool missing = r.chance(1, 12); std::string name = missing ? g_dir + "/none" : g_name[i]; missing |= !g_file[i].exists;
        BLArray<uint8_t> a, hold; Bytes held; if (!maps.empty() && r.chance(1, 3)) { a = maps[r.below(maps.size())].a; } else { size_t n = r.skew(200); for (size_t x = 0; x < n; x++) a.append(uint8_t(x)); } if (r.chance(1, 2)) { hold = a; held.assign(a.begin(), a.end()); }
        size_t nmaps = inj::maps.size(); (void)nmaps; BLResult e; { Call c; e = BLFileSystem::read_file(name.c_str(), a, mx, BLFileReadFlags(fl)); } evals();
        if (!hold.is_empty()) VH_CHECK(hold.size() == held.size() && memcmp(hold.data(), held.data(), held.size()) == 0, "read-file-shared", "%s: another array changed", when);
        if (e == BL_SUCCESS) {
          VH_CHECK(!missing, "read-file-missing", "%s", when); const Bytes& d = g_file[i].d; size_t want = mx ? std::min(mx, d.size()) : d.size(); VH_CHECK(a.size() == want || (inj::eof && a.size() < want), "read-file-size", "%s: %zu bytes instead of %zu (flags %u max %zu)", when, a.size(), want, fl, mx); VH_CHECK(a.is_empty() || memcmp(a.data(), d.data(), a.size()) == 0, "read-file-bytes", "%s: flags %u", when, fl);
          bool mapped = false; for (auto& m : inj::maps) if (a.data() == m.first) mapped = true; count(mapped ? "p36_mapped_files" : "p36_read_files"); VH_CHECK(mapped || !(fl & 1) || !(fl & 8) || want == 0 || ((fl & 2) && want < 65536), "read-file-no-fallback", "%s: read instead of mapped", when);
          if (mapped) { Mapped m; m.a = a; m.want.assign(d.begin(), d.begin() + long(want)); maps.push_back(m); }
        } else { VH_CHECK((missing && e == BL_ERROR_NO_ENTRY) || excused(e), "read-file-error", "%s: %u", when, e); VH_CHECK(!inj::mmap_failed || (fl & 8) || inj::errs.size() > 1 || !excused(e) || inj::fstat_failed || code_of(*inj::errs.begin()) != e || *inj::errs.begin() == EAGAIN, "read-file-fallback", "%s: mapping failed, but reading wasn't tried (%u)", when, e); count("p36_read_file_errors"); }
        { Bytes b(a.begin(), a.end()); Call c; if (r.chance(1, 2)) { b.push_back(9); VH_OK(a.append(uint8_t(9)), "array-after-read-file"); } else if (!b.empty()) { size_t x = r.below(b.size()); uint8_t* p; b[x] = 7; VH_OK(a.make_mutable(&p), "array-after-read-file"); p[x] = 7; } VH_CHECK(a.size() == b.size() && (b.empty() || memcmp(a.data(), b.data(), b.size()) == 0), "array-after-read-file", "%s", when); a.reset(); hold.reset(); }
        if (i >= 4) check_file(i, when); break; }
      case 17: { // write whole file
        int i = int(r.below(4)); bool busy = false; for (auto& o : hs) busy |= o.open && o.file == i; (void)busy; Bytes b = rnd_bytes(r, r.chance(1, 8) ? 0 : rnd_size(r)); size_t got = 777; bool dir = r.chance(1, 10); std::string name = dir ? g_dir + "/sub" : g_name[i];
        CALL(e, bl_file_system_write_file(name.c_str(), b.data(), b.size(), &got)); evals();
        if (dir) { VH_CHECK((e == BL_ERROR_NOT_FILE || excused(e)) && got == 0, "write-file-error", "%s: %u", when, e); break; }
        VH_CHECK(got <= b.size(), "write-file-count", "%s", when); if (e == BL_SUCCESS) { VH_CHECK(got == b.size(), "write-file-count", "%s: %zu of %zu", when, got, b.size()); count("p36_write_files"); } else VH_CHECK(excused(e), "write-file-error", "%s: %u", when, e);
        { bool ex; Bytes now = real_content(g_name[i], ex); if (e != BL_SUCCESS && got == 0 && ex == g_file[i].exists && now == g_file[i].d) break; /* open failed */ g_file[i].exists = true; b.resize(got); g_file[i].d = b; } check_file(i, when); break; }
      case 18: { // images and fonts by file name
        std::string name = g_dir + "/sub/x"; bool img = r.chance(2, 3); const BLArray<uint8_t>& src = img ? g_png : g_font; 
        if (img && r.chance(1, 2)) { CALL(e, g_im.write_to_file(name.c_str(), [] { BLImageCodec c; c.find_by_name("PNG"); return c; }())); evals(); bool ex; Bytes b = real_content(name, ex); if (e == BL_SUCCESS) { VH_CHECK(b.size() == src.size() && memcmp(b.data(), src.data(), b.size()) == 0, "image-file-bytes", "%s: %zu of %zu bytes", when, b.size(), src.size()); count("p36_image_files"); } else VH_CHECK(excused(e), "image-file-error", "%s: %u", when, e); if (e != BL_SUCCESS) { unlink(name.c_str()); break; } }
        else { int fd = __real_open64(name.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (__real_write(fd, src.data(), src.size()) != ssize_t(src.size())) {} __real_close(fd); }
        if (img) { BLImage im; CALL(e, im.read_from_file(name.c_str())); evals(); if (e == BL_SUCCESS) { VH_CHECK(im.equals(g_im), "image-file-pixels", "%s", when); count("p36_image_reads"); } else VH_CHECK(excused(e) || (inj::eof && im.is_empty()), "image-read-error", "%s: %u", when, e); }
        else { BLFontData fd; BLFontFace ff; BLResult e, e2 = BL_SUCCESS; { Call c; e = fd.create_from_file(name.c_str(), BLFileReadFlags(r.below(4))); } bool exc = excused(e), eof = inj::eof; evals(); if (e == BL_SUCCESS) { e2 = ff.create_from_data(fd, 0); VH_CHECK(e2 == BL_SUCCESS || eof, "font-file", "%s: %u", when, e2); count("p36_font_files"); } else VH_CHECK(exc || eof, "font-file-error", "%s: %u", when, e); { Call c; ff.reset(); fd.reset(); } }
        unlink(name.c_str()); break; }
      default: { // forget a mapping
        if (maps.empty()) break; size_t x = r.below(maps.size()); VH_CHECK(maps[x].a.size() == maps[x].want.size() && memcmp(maps[x].a.data(), maps[x].want.data(), maps[x].want.size()) == 0, "mapped-bytes", "%s", when); Call c; maps.erase(maps.begin() + long(x)); break; }
    }
    VH_CHECK(inj::bad_close == 0, "close-unknown-descriptor", "%s: close() of a descriptor that isn't the library's", when); VH_CHECK(inj::bad_unmap == 0, "unmap-size", "%s", when);
    size_t nopen = 0; for (auto& o : hs) { VH_CHECK(o.f.is_open() == o.open, "handle-state", "%s: open=%d, model %d", when, o.f.is_open(), o.open); if (o.open) { nopen++; VH_CHECK(inj::fds.count(int(o.f.handle)), "handle-state", "%s: not an open descriptor", when); } }
    VH_CHECK(inj::fds.size() == nopen, "descriptor-leak", "%s: %zu descriptors open, %zu handles", when, inj::fds.size(), nopen);
    if (r.chance(1, 8)) { int i = int(r.below(NF)); check_file(i, when); }
  }
  { Call c; for (auto& m : maps) VH_CHECK(m.a.size() == m.want.size() && memcmp(m.a.data(), m.want.data(), m.want.size()) == 0, "mapped-bytes", "end"); maps.clear(); hs.clear(); }
  VH_CHECK(inj::fds.empty(), "descriptor-leak", "%zu descriptors open at the end", inj::fds.size()); VH_CHECK(inj::maps.empty(), "mapping-leak", "%zu mappings left", inj::maps.size());
  for (int i = 0; i < NF; i++) check_file(i, "the end");
  distinct(hist.h);
}
