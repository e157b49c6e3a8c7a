// Simulated disk: every path below /simdisk/ lives in memory; writes can be short, interrupted, fail, or be the last ones before a crash.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default"), used))
#define REAL(name) ([] { static decltype(&name) p = nullptr; if (!p) p = (decltype(&name))dlsym(RTLD_NEXT, #name); return p; }())
using namespace rt;

namespace rt {
Disk disk;
const char* disk_prefix = "/simdisk/";
SimFile* Disk::find(const std::string& n) { for (auto& f : files) if (f.name == n) return &f; return nullptr; }

static const int FD0 = 1000000;
struct Open { int file; size_t pos; bool append, used, rd, wr; FILE* fp; };
static std::vector<Open> opens_;
static bool is_sim(const char* p) { return p && g_active && cur && !strncmp(p, disk_prefix, strlen(disk_prefix)); }
static Open* by_fd(int fd) {
    if (fd < FD0 || fd - FD0 >= (int)opens_.size() || !opens_[fd - FD0].used) return nullptr;
    return &opens_[fd - FD0];
}
static int disk_open(const char* path, bool rd, bool wr, bool creat_, bool trunc, bool app, bool excl) {
    HarnessScope hs;
    sched_point(K_IO);
    int64_t k = disk.opens++;
    if (k == disk.fail_open_at) { disk.injected++; errno = disk.fail_errno ? disk.fail_errno : EACCES; return -1; }
    SimFile* f = disk.find(path);
    if (f && excl) { errno = EEXIST; return -1; }
    if (!f) {
        if (!creat_) { errno = ENOENT; return -1; }
        disk.files.push_back({path, "", false});
        f = &disk.files.back();
    } else if (trunc) { disk.bytes -= f->data.size() < disk.bytes ? f->data.size() : disk.bytes; f->data.clear(); }
    opens_.push_back({(int)(f - &disk.files[0]), 0, app, true, rd, wr, nullptr});
    return FD0 + opens_.size() - 1;
}
static ssize_t disk_write(Open* o, const char* b, size_t n) {
    HarnessScope hs;
    sched_point(K_IO);
    SimFile& f = disk.files[o->file];
    if (o->append) o->pos = f.data.size();
    int64_t k = disk.writes++;
    size_t m = n;
    auto put = [&](size_t c) {
        if (o->pos + c > f.data.size()) { disk.bytes += o->pos + c - f.data.size(); f.data.resize(o->pos + c); }
        memcpy(&f.data[o->pos], b, c);
        o->pos += c;
    };
    if (k == disk.crash_at) {
        int64_t part = fault(F_CRASH, 1.0, 1001);
        if (part < 0) part = 0;
        put(n * part / 1000);
        if (disk.on_crash) disk.on_crash();
        finish("ok", "crashed", "");
    }
    if (disk.fail_write_at >= 0 && (disk.fail_persist ? k >= disk.fail_write_at : k == disk.fail_write_at)) {
        disk.injected++; errno = disk.fail_errno ? disk.fail_errno : EIO; return -1;
    }
    double p = disk.p_short + disk.p_eintr + disk.p_eio;
    if (n > 0 && (p > 0 || !g_record)) {
        int64_t v = fault(F_IO, p, 1000000);
        if (v >= 0) {
            disk.injected++;
            double x = (v % 1000) / 1000.0 * p;
            if (x < disk.p_eintr) { errno = EINTR; return -1; }
            if (x < disk.p_eintr + disk.p_eio) { errno = EIO; return -1; }
            m = 1 + (size_t)(v / 1000) * (n > 1 ? n - 1 : 0) / 1000;
            if (m > n) m = n;
        }
    }
    if (disk.bytes + m > disk.cap) {
        disk.injected++;
        m = disk.cap > disk.bytes ? disk.cap - disk.bytes : 0;
        if (!m) { errno = ENOSPC; return -1; }
    }
    put(m);
    return m;
}
static ssize_t disk_read(Open* o, char* b, size_t n) {
    SimFile& f = disk.files[o->file];
    if (o->pos >= f.data.size()) return 0;
    size_t m = f.data.size() - o->pos < n ? f.data.size() - o->pos : n;
    memcpy(b, &f.data[o->pos], m); o->pos += m; return m;
}
static int disk_close(Open* o) {
    HarnessScope hs;
    sched_point(K_IO);
    int64_t k = disk.closes++;
    o->used = false;
    if (k == disk.fail_close_at && o->wr) { // delayed allocation failure: the tail of the data is lost and close says so
        SimFile& f = disk.files[o->file];
        disk.injected++;
        f.data.resize(f.data.size() * 3 / 4);
        errno = disk.fail_errno ? disk.fail_errno : EIO;
        return -1;
    }
    return 0;
}
static off64_t disk_seek(Open* o, off64_t off, int wh) {
    SimFile& f = disk.files[o->file];
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : (int64_t)f.data.size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    return o->pos = b + off;
}
static ssize_t ck_read(void* c, char* b, size_t n) { Open* o = by_fd((int)(intptr_t)c); return o ? disk_read(o, b, n) : -1; }
static ssize_t ck_write(void* c, const char* b, size_t n) { Open* o = by_fd((int)(intptr_t)c); if (!o) return 0; ssize_t r = disk_write(o, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* off, int wh) { Open* o = by_fd((int)(intptr_t)c); if (!o) return -1; off64_t r = disk_seek(o, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int close_rc = 0;
static int ck_close(void* c) { Open* o = by_fd((int)(intptr_t)c); if (!o) return 0; return close_rc = disk_close(o); }
static FILE* sim_fopen(const char* p, const char* m) {
    bool plus = strchr(m, '+');
    char c = m[0];
    int fd = disk_open(p, c == 'r' || plus, c != 'r' || plus, c != 'r', c == 'w', c == 'a', strchr(m, 'x'));
    if (fd < 0) return nullptr;
    HarnessScope hs;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(intptr_t)fd, m, io);
    by_fd(fd)->fp = f;
    return f;
}
size_t disk_open_files() { size_t n = 0; for (auto& o : opens_) n += o.used; return n; }
static int fd_of(FILE* f) { for (size_t i = 0; i < opens_.size(); ++i) if (opens_[i].used && opens_[i].fp == f) return FD0 + i; return -1; }
} // namespace rt

extern "C" {
EXPORT FILE* fopen(const char* p, const char* m) { return is_sim(p) ? sim_fopen(p, m) : REAL(fopen)(p, m); }
EXPORT FILE* fopen64(const char* p, const char* m) { return is_sim(p) ? sim_fopen(p, m) : REAL(fopen64)(p, m); }
EXPORT int fileno(FILE* f) { int fd = opens_.empty() ? -1 : fd_of(f); return fd >= 0 ? fd : REAL(fileno)(f); }
EXPORT int fclose(FILE* f) { return REAL(fclose)(f); }
static int do_open(const char* p, int fl) {
    int acc = fl & O_ACCMODE;
    return disk_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
}
EXPORT int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    return is_sim(p) ? do_open(p, fl) : REAL(open)(p, fl, mode);
}
EXPORT int open64(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    return is_sim(p) ? do_open(p, fl) : REAL(open64)(p, fl, mode);
}
EXPORT int openat(int d, const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    return is_sim(p) ? do_open(p, fl) : REAL(openat)(d, p, fl, mode);
}
EXPORT int creat(const char* p, mode_t m) { return is_sim(p) ? do_open(p, O_WRONLY | O_CREAT | O_TRUNC) : REAL(creat)(p, m); }
EXPORT ssize_t write(int fd, const void* b, size_t n) { Open* o = by_fd(fd); return o ? disk_write(o, (const char*)b, n) : REAL(write)(fd, b, n); }
EXPORT ssize_t read(int fd, void* b, size_t n) { Open* o = by_fd(fd); return o ? disk_read(o, (char*)b, n) : REAL(read)(fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
    Open* o = by_fd(fd);
    if (!o) return REAL(writev)(fd, v, c);
    std::string s;
    { HarnessScope hs; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); }
    ssize_t r = disk_write(o, s.data(), s.size());
    return r;
}
EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t off) { Open* o = by_fd(fd); if (!o) return REAL(pwrite)(fd, b, n, off); size_t p = o->pos; o->pos = off; ssize_t r = disk_write(o, (const char*)b, n); o->pos = p; return r; }
EXPORT int close(int fd) { Open* o = by_fd(fd); return o ? disk_close(o) : REAL(close)(fd); }
EXPORT off_t lseek(int fd, off_t off, int wh) noexcept { Open* o = by_fd(fd); return o ? disk_seek(o, off, wh) : REAL(lseek)(fd, off, wh); }
EXPORT off64_t lseek64(int fd, off64_t off, int wh) noexcept { Open* o = by_fd(fd); return o ? disk_seek(o, off, wh) : REAL(lseek64)(fd, off, wh); }
EXPORT int fsync(int fd) { Open* o = by_fd(fd); return o ? 0 : REAL(fsync)(fd); }
EXPORT int fdatasync(int fd) { Open* o = by_fd(fd); return o ? 0 : REAL(fdatasync)(fd); }
EXPORT int ftruncate(int fd, off_t n) noexcept { Open* o = by_fd(fd); if (!o) return REAL(ftruncate)(fd, n); disk.files[o->file].data.resize(n); return 0; }
EXPORT int fstat(int fd, struct stat* s) noexcept { Open* o = by_fd(fd); if (!o) return REAL(fstat)(fd, s); memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = disk.files[o->file].data.size(); s->st_blksize = 4096; return 0; }
EXPORT int rename(const char* a, const char* b) noexcept {
    if (!is_sim(a)) return REAL(rename)(a, b);
    SimFile* f = disk.find(a); if (!f) { errno = ENOENT; return -1; }
    SimFile* g = disk.find(b); if (g) { g->data = f->data; f->name += "#gone"; f->data.clear(); } else f->name = b;
    return 0;
}
EXPORT int unlink(const char* a) noexcept {
    if (!is_sim(a)) return REAL(unlink)(a);
    SimFile* f = disk.find(a); if (!f) { errno = ENOENT; return -1; }
    f->name += "#gone"; f->data.clear(); return 0;
}
EXPORT int remove(const char* a) noexcept { return is_sim(a) ? unlink(a) : REAL(remove)(a); }
}
