// The simulated disk: paths below /simdisk/ live in memory, behind the libc
// calls that iostreams and stdio use, with fault injection.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#define fopen64 fopen64_hidden
#include <stdio.h>
#undef fopen64
#include "internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <map>
#include <memory>

using namespace sim::rt;

namespace {
constexpr int kFdBase = 1 << 20;
constexpr char kPrefix[] = "/simdisk/";

struct Inode { std::string data; };
struct OpenFile {
  bool used = false;
  std::shared_ptr<Inode> ino;
  int64_t off = 0;
  bool append = false, rd = false, wr = false;
  bool write_error = false;
  FILE* file = nullptr;
};
struct Disk {
  std::map<std::string, std::shared_ptr<Inode>> files;
  std::vector<OpenFile> fds;
  sim::disk::Plan plan;
  uint64_t written = 0, errors = 0;
  std::function<void()> crash;
};
Disk* D() {
  static Disk* d = new Disk;
  return d;
}
bool is_sim(const char* p) { return self && p && strncmp(p, kPrefix, sizeof(kPrefix) - 1) == 0; }
OpenFile* of(int fd) {
  if (fd < kFdBase) return nullptr;
  size_t i = fd - kFdBase;
  if (i >= D()->fds.size() || !D()->fds[i].used) return nullptr;
  return &D()->fds[i];
}

int disk_open(const char* path, int flags) {
  point_io();
  sim::Quiet q;
  Disk* d = D();
  if (sim::fault("open_fail", d->plan.open_fail)) {
    ++d->errors;
    errno = (flags & O_CREAT) ? ENOSPC : EIO;
    return -1;
  }
  std::string p = path;
  auto it = d->files.find(p);
  if (it == d->files.end()) {
    if (!(flags & O_CREAT) || p.find("/missing/") != std::string::npos) { errno = ENOENT; return -1; }
    it = d->files.emplace(p, std::make_shared<Inode>()).first;
  } else if (flags & O_EXCL) {
    errno = EEXIST;
    return -1;
  }
  if (flags & O_TRUNC) it->second->data.clear();
  size_t i = 0;
  while (i < d->fds.size() && d->fds[i].used) ++i;
  if (i == d->fds.size()) d->fds.emplace_back();
  OpenFile& f = d->fds[i];
  f = OpenFile();
  f.used = true;
  f.ino = it->second;
  int acc = flags & O_ACCMODE;
  f.rd = acc == O_RDONLY || acc == O_RDWR;
  f.wr = acc == O_WRONLY || acc == O_RDWR;
  f.append = flags & O_APPEND;
  sim::log_event("open " + p);
  return kFdBase + static_cast<int>(i);
}

ssize_t disk_write(OpenFile* f, const char* b, size_t n) {
  sim::Quiet q;
  Disk* d = D();
  sim::log_event(static_cast<uint64_t>(n));
  if (!f->wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (sim::fault("eintr_write", d->plan.eintr)) { errno = EINTR; return -1; }
  if (sim::fault("write_error", d->plan.write_error)) {
    ++d->errors;
    f->write_error = true;
    errno = EIO;
    return -1;
  }
  size_t take = n;
  if (n > 1) {
    uint64_t s = sim::fault_value("short_write", d->plan.short_write, n - 1);
    if (s && s < n) take = s;
  }
  if (f->append) f->off = f->ino->data.size();
  size_t grow = f->off + take > f->ino->data.size() ? f->off + take - f->ino->data.size() : 0;
  if (d->plan.capacity >= 0 && static_cast<int64_t>(grow) > d->plan.capacity) {
    size_t over = grow - d->plan.capacity;
    if (over >= take) {
      ++d->errors;
      f->write_error = true;
      sim::count("fault.disk_full");
      errno = ENOSPC;
      return -1;
    }
    take -= over;
    grow -= over;
  }
  if (d->plan.crash_after_bytes >= 0 && static_cast<int64_t>(d->written + take) > d->plan.crash_after_bytes) {
    take = d->plan.crash_after_bytes - d->written;
    if (f->ino->data.size() < f->off + take) f->ino->data.resize(f->off + take);
    f->ino->data.replace(f->off, take, b, take);
    sim::count("fault.crash");
    // The process is gone: none of its other threads ever runs again.
    for (int i = 0; i < G.nthreads; ++i)
      if (&G.threads[i] != self) { G.threads[i].st = Thread::DONE; G.threads[i].deadline = -1; }
    int q0 = self->quiet;
    self->quiet = 0;
    d->plan = sim::disk::Plan();
    d->fds.clear();
    auto cb = d->crash;
    if (cb) cb();
    self->quiet = q0;
    finish_run(kOk);
  }
  if (d->plan.capacity >= 0) d->plan.capacity -= grow;
  if (f->ino->data.size() < f->off + take) f->ino->data.resize(f->off + take);
  f->ino->data.replace(f->off, take, b, take);
  f->off += take;
  d->written += take;
  return take;
}
ssize_t disk_read(OpenFile* f, char* b, size_t n) {
  sim::Quiet q;
  Disk* d = D();
  if (!f->rd) { errno = EBADF; return -1; }
  size_t left = f->off < static_cast<int64_t>(f->ino->data.size()) ? f->ino->data.size() - f->off : 0;
  size_t take = n < left ? n : left;
  if (take) {
    if (sim::fault("eintr_read", d->plan.eintr)) { errno = EINTR; return -1; }
    if (sim::fault("read_error", d->plan.read_error)) { ++d->errors; errno = EIO; return -1; }
    if (take > 1) {
      uint64_t s = sim::fault_value("short_read", d->plan.short_read, take - 1);
      if (s && s < take) take = s;
    }
  }
  memcpy(b, f->ino->data.data() + f->off, take);
  f->off += take;
  return take;
}
int64_t disk_seek(OpenFile* f, int64_t o, int wh) {
  sim::Quiet q;
  if (sim::fault("seek_fail", D()->plan.seek_fail)) { ++D()->errors; errno = EIO; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->off : static_cast<int64_t>(f->ino->data.size());
  if (base + o < 0) { errno = EINVAL; return -1; }
  f->off = base + o;
  return f->off;
}
int disk_close(OpenFile* f) {
  sim::Quiet q;
  bool bad = f->wr && sim::fault("close_fail", D()->plan.close_fail);
  if (bad) ++D()->errors;
  f->used = false;
  f->ino.reset();
  f->file = nullptr;
  if (bad) { errno = EIO; return -1; }
  return 0;
}

ssize_t ck_read(void* c, char* b, size_t n) {
  OpenFile* f = of(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  ssize_t r = disk_read(f, b, n);
  return r;
}
ssize_t ck_write(void* c, const char* b, size_t n) {
  OpenFile* f = of(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  ssize_t r = disk_write(f, b, n);
  return r < 0 ? 0 : r;
}
int ck_seek(void* c, off64_t* o, int wh) {
  OpenFile* f = of(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  int64_t r = disk_seek(f, *o, wh);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int ck_close(void* c) {
  OpenFile* f = of(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  return disk_close(f);
}

FILE* disk_fopen(int fd, const char* mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
  of(fd)->file = f;
  return f;
}
int mode_flags(const char* m) {
  bool plus = strchr(m, '+');
  int fl;
  if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'a' ? O_APPEND : O_TRUNC);
  return fl;
}
template <class F> F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
void fill_stat(struct stat* st, size_t size) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = size;
  st->st_blksize = 4096;
}
}  // namespace

namespace sim {
namespace disk {
bool exists(const std::string& p) { Quiet q; return D()->files.count(p); }
std::string content(const std::string& p) {
  Quiet q;
  auto it = D()->files.find(p);
  return it == D()->files.end() ? "" : it->second->data;
}
void put(const std::string& p, const std::string& c) {
  Quiet q;
  auto i = std::make_shared<Inode>();
  i->data = c;
  D()->files[p] = i;
}
void remove(const std::string& p) { Quiet q; D()->files.erase(p); }
void clear() { Quiet q; D()->files.clear(); }
void set_plan(const Plan& p) { D()->plan = p; D()->errors = 0; D()->written = 0; }
Plan& plan() { return D()->plan; }
uint64_t bytes_written() { return D()->written; }
uint64_t errors_injected() { return D()->errors; }
void on_crash(std::function<void()> cb) { D()->crash = std::move(cb); }
int open_files() { int n = 0; for (auto& f : D()->fds) n += f.used; return n; }
}  // namespace disk
}  // namespace sim

extern "C" {
FILE* fopen(const char* path, const char* mode) {
  if (!is_sim(path)) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen"); return f(path, mode); }
  int fd = disk_open(path, mode_flags(mode));
  if (fd < 0) return nullptr;
  sim::Quiet q;
  return disk_fopen(fd, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
FILE* fdopen(int fd, const char* mode) noexcept {
  if (!of(fd)) { static auto f = next<FILE* (*)(int, const char*)>("fdopen"); return f(fd, mode); }
  sim::Quiet q;
  return disk_fopen(fd, mode);
}
int fileno(FILE* f) noexcept {
  if (self) for (size_t i = 0; i < D()->fds.size(); ++i)
    if (D()->fds[i].used && D()->fds[i].file == f) return kFdBase + static_cast<int>(i);
  static auto r = next<int (*)(FILE*)>("fileno");
  return r(f);
}
static int open_impl(const char* path, int flags, int mode) {
  if (is_sim(path)) return disk_open(path, flags);
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return open_impl(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return open_impl(path, flags, mode);
}
ssize_t read(int fd, void* b, size_t n) {
  if (OpenFile* f = of(fd)) { point_io(); return disk_read(f, static_cast<char*>(b), n); }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (OpenFile* f = of(fd)) { point_io(); return disk_write(f, static_cast<const char*>(b), n); }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (OpenFile* f = of(fd)) {
    point_io();
    std::string all;
    { sim::Quiet q; for (int i = 0; i < c; ++i) all.append(static_cast<char*>(v[i].iov_base), v[i].iov_len); }
    ssize_t r = disk_write(f, all.data(), all.size());
    { sim::Quiet q; std::string().swap(all); }
    return r;
  }
  return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t o, int wh) noexcept {
  if (OpenFile* f = of(fd)) return disk_seek(f, o, wh);
  return syscall(SYS_lseek, fd, o, wh);
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept { return lseek(fd, o, wh); }
int close(int fd) {
  if (OpenFile* f = of(fd)) { point_io(); return disk_close(f); }
  return syscall(SYS_close, fd);
}
int fsync(int fd) {
  if (of(fd)) { point_io(); return 0; }
  return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) noexcept {
  if (OpenFile* f = of(fd)) { sim::Quiet q; f->ino->data.resize(n); return 0; }
  return syscall(SYS_ftruncate, fd, n);
}
int fstat(int fd, struct stat* st) noexcept {
  if (OpenFile* f = of(fd)) { fill_stat(st, f->ino->data.size()); return 0; }
  static auto r = next<int (*)(int, struct stat*)>("fstat");
  return r(fd, st);
}
static int disk_stat(const char* p, struct stat* st) {
  sim::Quiet q;
  auto it = D()->files.find(p);
  if (it == D()->files.end()) { errno = ENOENT; return -1; }
  fill_stat(st, it->second->data.size());
  return 0;
}
int stat(const char* p, struct stat* st) noexcept {
  if (is_sim(p)) return disk_stat(p, st);
  static auto r = next<int (*)(const char*, struct stat*)>("stat");
  return r(p, st);
}
int lstat(const char* p, struct stat* st) noexcept {
  if (is_sim(p)) return disk_stat(p, st);
  static auto r = next<int (*)(const char*, struct stat*)>("lstat");
  return r(p, st);
}
int access(const char* p, int m) noexcept {
  if (is_sim(p)) { struct stat st; return disk_stat(p, &st); }
  return syscall(SYS_access, p, m);
}
int poll(struct pollfd* p, nfds_t n, int to) {
  if (n == 1 && of(p->fd)) { p->revents = p->events; return 1; }
  return syscall(SYS_poll, p, n, to);
}
int rename(const char* a, const char* b) noexcept {
  if (is_sim(a) || is_sim(b)) {
    sim::Quiet q;
    auto it = D()->files.find(a);
    if (it == D()->files.end()) { errno = ENOENT; return -1; }
    auto ino = it->second;
    D()->files.erase(it);
    D()->files[b] = ino;
    return 0;
  }
  return syscall(SYS_rename, a, b);
}
int unlink(const char* a) noexcept {
  if (is_sim(a)) {
    sim::Quiet q;
    if (!D()->files.erase(a)) { errno = ENOENT; return -1; }
    return 0;
  }
  return syscall(SYS_unlink, a);
}
int remove(const char* a) noexcept {
  if (is_sim(a)) return unlink(a);
  static auto r = next<int (*)(const char*)>("remove");
  return r(a);
}
}  // extern "C"
