// Simulated disk: files below SIM_DISK_ROOT live in memory; every open, read,
// write, sync and close on them passes through here and may fail.
namespace sim {
struct SimFile {
  bool used;
  char name[192];
  int fd;           // memfd with the content
  size_t durable;   // bytes guaranteed to survive a crash
};
enum { kMaxFiles = 64, kMaxFds = 1024 };
static SimFile g_files[kMaxFiles];
static int g_fd_file[kMaxFds];  // fd -> file index + 1
static int g_disk_mode = 0;
static int64_t g_disk_cap = -1;
static int g_err_open = 0, g_err_write = 0, g_err_read = 0;
static const size_t kRootLen = sizeof(SIM_DISK_ROOT) - 1;

static bool on_disk(const char* p) {
  return p && !strncmp(p, SIM_DISK_ROOT, kRootLen);
}
static int file_find(const char* p) {
  for (int i = 0; i < kMaxFiles; ++i)
    if (g_files[i].used && !strcmp(g_files[i].name, p)) return i;
  return -1;
}
static int file_create(const char* p) {
  for (int i = 0; i < kMaxFiles; ++i)
    if (!g_files[i].used) {
      g_files[i].used = true;
      copy_str(g_files[i].name, sizeof(g_files[i].name), p);
      g_files[i].fd = static_cast<int>(
          raw_syscall(SYS_memfd_create, reinterpret_cast<long>("simfile"), 0));
      g_files[i].durable = 0;
      return i;
    }
  internal_error("too many simulated files");
}
static int64_t fd_size(int fd) {
  struct stat st;
  if (raw_syscall(SYS_fstat, fd, reinterpret_cast<long>(&st)) < 0) return 0;
  return st.st_size;
}
static int64_t disk_used() {
  int64_t n = 0;
  for (int i = 0; i < kMaxFiles; ++i)
    if (g_files[i].used) n += fd_size(g_files[i].fd);
  return n;
}
static int fd_lookup(int fd) {
  return fd >= 0 && fd < kMaxFds ? g_fd_file[fd] - 1 : -1;
}
static uint32_t disk_fault(const char* kind, int min_mode, double p) {
  if (!live() || !g_env.io_faults || g_disk_mode < min_mode) return 0;
  Thr* t = t_self;
  ++t->in_rt;
  const uint32_t v = fault_named(kind, 2, p * P.p_fault_permille / 1000.0);
  --t->in_rt;
  return v;
}
// Returns an fd or -1 with errno.
static int disk_open(const char* path, int flags) {
  Thr* t = t_self;
  if (t) ++t->in_rt;
  int idx = file_find(path);
  int result = -1;
  do {
    if (disk_fault("open_error", disk::kErrors, 0.15)) {
      ++g_err_open;
      errno = (flags & O_CREAT) ? ENOSPC : EIO;
      break;
    }
    if (idx < 0) {
      if (!(flags & O_CREAT)) {
        errno = ENOENT;
        break;
      }
      idx = file_create(path);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
      errno = EEXIST;
      break;
    }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
      raw_syscall(SYS_ftruncate, g_files[idx].fd, 0);
      g_files[idx].durable = 0;
    }
    char self[64];
    snprintf(self, sizeof(self), "/proc/self/fd/%d", g_files[idx].fd);
    int fd = static_cast<int>(
        raw_syscall(SYS_open, reinterpret_cast<long>(self),
                    flags & (O_ACCMODE | O_APPEND)));
    if (fd < 0) {
      fd = static_cast<int>(raw_syscall(SYS_dup, g_files[idx].fd));
      raw_syscall(SYS_lseek, fd, 0, flags & O_APPEND ? SEEK_END : SEEK_SET);
    }
    if (fd < 0 || fd >= kMaxFds) internal_error("simulated disk: no fd");
    g_fd_file[fd] = idx + 1;
    event("disk-open", static_cast<uint64_t>(idx), flags);
    result = fd;
  } while (false);
  if (t) --t->in_rt;
  return result;
}
static ssize_t disk_write(int fd, const void* buf, size_t n) {
  Thr* t = t_self;
  if (t) ++t->in_rt;
  ssize_t out = -1;
  do {
    if (disk_fault("write_eintr", disk::kBenign, 0.10)) {
      errno = EINTR;
      break;
    }
    if (disk_fault("write_eio", disk::kErrors, 0.10)) {
      ++g_err_write;
      errno = EIO;
      break;
    }
    size_t want = n;
    if (n > 1 && disk_fault("short_write", disk::kBenign, 0.20))
      want = n / 2 ? n / 2 : 1;
    if (g_disk_cap >= 0) {
      const int64_t room = g_disk_cap - disk_used();
      if (room <= 0 && n > 0) {
        ++g_err_write;
        count_fault("disk_full");
        errno = ENOSPC;
        break;
      }
      if (static_cast<int64_t>(want) > room) want = static_cast<size_t>(room);
    }
    out = raw_syscall(SYS_write, fd, reinterpret_cast<long>(buf), want);
    if (out < 0) {
      errno = static_cast<int>(-out);
      out = -1;
    }
    event("disk-write", static_cast<uint64_t>(fd_lookup(fd)),
          static_cast<uint64_t>(out));
  } while (false);
  if (t) --t->in_rt;
  return out;
}
static ssize_t disk_read(int fd, void* buf, size_t n) {
  Thr* t = t_self;
  if (t) ++t->in_rt;
  ssize_t out = -1;
  do {
    if (disk_fault("read_eintr", disk::kBenign, 0.10)) {
      errno = EINTR;
      break;
    }
    if (disk_fault("read_eio", disk::kErrors, 0.10)) {
      ++g_err_read;
      errno = EIO;
      break;
    }
    size_t want = n;
    if (n > 1 && disk_fault("short_read", disk::kBenign, 0.25))
      want = n / 2 ? n / 2 : 1;
    out = raw_syscall(SYS_read, fd, reinterpret_cast<long>(buf), want);
    if (out < 0) {
      errno = static_cast<int>(-out);
      out = -1;
    }
  } while (false);
  if (t) --t->in_rt;
  return out;
}
static int disk_sync(int fd) {
  const int idx = fd_lookup(fd);
  if (disk_fault("fsync_error", disk::kErrors, 0.10)) {
    ++g_err_write;
    errno = EIO;
    return -1;
  }
  if (idx >= 0) g_files[idx].durable = static_cast<size_t>(fd_size(fd));
  return 0;
}
// After the fd is gone: may still report a deferred write error.
static int disk_closed(bool writable) {
  if (writable && disk_fault("close_error", disk::kErrors, 0.08)) {
    ++g_err_write;
    errno = EIO;
    return -1;
  }
  return 0;
}
static bool fd_writable(int fd) {
  const long fl = raw_syscall(SYS_fcntl, fd, F_GETFL);
  return fl >= 0 && (fl & O_ACCMODE) != O_RDONLY;
}

namespace disk {
void set_mode(int mode, int64_t cap) {
  g_disk_mode = mode;
  g_disk_cap = cap;
}
int hard_errors() { return g_err_open + g_err_write + g_err_read; }
int open_errors() { return g_err_open; }
int write_errors() { return g_err_write; }
int read_errors() { return g_err_read; }
bool exists(const char* p) { return file_find(p) >= 0; }
int64_t size(const char* p) {
  const int i = file_find(p);
  return i < 0 ? -1 : fd_size(g_files[i].fd);
}
const unsigned char* data(const char* p) {
  const int i = file_find(p);
  if (i < 0) return nullptr;
  const int64_t n = fd_size(g_files[i].fd);
  unsigned char* b = static_cast<unsigned char*>(arena_alloc(n + 1));
  int64_t off = 0;
  while (off < n) {
    const long k = raw_syscall(SYS_pread64, g_files[i].fd,
                               reinterpret_cast<long>(b + off), n - off, off);
    if (k <= 0) break;
    off += k;
  }
  b[n] = 0;
  return b;
}
void put(const char* p, const void* d, size_t n) {
  int i = file_find(p);
  if (i < 0) i = file_create(p);
  raw_syscall(SYS_ftruncate, g_files[i].fd, 0);
  size_t off = 0;
  while (off < n) {
    const long k = raw_syscall(
        SYS_pwrite64, g_files[i].fd,
        reinterpret_cast<long>(static_cast<const char*>(d) + off), n - off, off);
    if (k <= 0) break;
    off += k;
  }
  g_files[i].durable = n;
}
void remove(const char* p) {
  const int i = file_find(p);
  if (i >= 0) {
    raw_syscall(SYS_close, g_files[i].fd);
    g_files[i].used = false;
  }
}
void truncate(const char* p, size_t n) {
  const int i = file_find(p);
  if (i >= 0 && static_cast<int64_t>(n) < fd_size(g_files[i].fd))
    raw_syscall(SYS_ftruncate, g_files[i].fd, n);
}
void crash(int keep_permille) {
  for (int i = 0; i < kMaxFiles; ++i) {
    if (!g_files[i].used) continue;
    const int64_t n = fd_size(g_files[i].fd);
    const int64_t d = static_cast<int64_t>(g_files[i].durable);
    if (n > d)
      raw_syscall(SYS_ftruncate, g_files[i].fd, d + (n - d) * keep_permille / 1000);
  }
  for (int i = 0; i < kMaxFds; ++i) g_fd_file[i] = 0;
  count_fault("crash_torn_files");
}
int open_files() {
  int n = 0;
  for (int i = 0; i < kMaxFds; ++i) n += g_fd_file[i] != 0;
  return n;
}
int count() {
  int n = 0;
  for (int i = 0; i < kMaxFiles; ++i) n += g_files[i].used;
  return n;
}
const char* name(int idx) {
  int n = 0;
  for (int i = 0; i < kMaxFiles; ++i)
    if (g_files[i].used && n++ == idx) return g_files[i].name;
  return nullptr;
}
}  // namespace disk

struct Cookie {
  int fd;
};
static ssize_t ck_read(void* c, char* b, size_t n) {
  ssize_t r;
  do {
    r = disk_read(static_cast<Cookie*>(c)->fd, b, n);
  } while (r < 0 && errno == EINTR);
  return r;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
  size_t done = 0;
  while (done < n) {
    const ssize_t r = disk_write(static_cast<Cookie*>(c)->fd, b + done, n - done);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    done += static_cast<size_t>(r);
  }
  return static_cast<ssize_t>(done);
}
static int ck_seek(void* c, off64_t* o, int w) {
  const long r = raw_syscall(SYS_lseek, static_cast<Cookie*>(c)->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void* c) {
  const int fd = static_cast<Cookie*>(c)->fd;
  const bool w = fd_writable(fd);
  g_fd_file[fd] = 0;
  raw_syscall(SYS_close, fd);
  return disk_closed(w);
}
static FILE* disk_fopen(const char* path, const char* mode, bool raw_fd) {
  int flags = 0;
  const bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
  if (mode[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  if (mode[0] == 'a') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) flags |= O_EXCL;
  const int fd = disk_open(path, flags);
  if (fd < 0) return nullptr;
  if (raw_fd) return fdopen(fd, mode);
  Cookie* c = static_cast<Cookie*>(arena_alloc(sizeof(Cookie)));
  c->fd = fd;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie(c, mode, io);
}
}  // namespace sim

extern "C" {
static FILE* any_fopen(const char* p, const char* m, uintptr_t ra) {
  load_real();
  if (live() && on_disk(p)) {
    const bool cxx = ra >= g_cxx_range.lo && ra < g_cxx_range.hi;
    return disk_fopen(p, m, cxx);
  }
  return real_fopen(p, m);
}
FILE* fopen(const char* p, const char* m) { return any_fopen(p, m, RA()); }
FILE* fopen64(const char* p, const char* m) { return any_fopen(p, m, RA()); }
int fclose(FILE* f) {
  load_real();
  if (!live()) return real_fclose(f);
  const int fd = fileno(f);
  if (fd >= 0 && fd_lookup(fd) >= 0) {
    const bool w = fd_writable(fd);
    g_fd_file[fd] = 0;
    const int rc = real_fclose(f);
    const int c = disk_closed(w);
    return rc ? rc : c;
  }
  return real_fclose(f);
}
static int any_open(const char* p, int flags, int mode) {
  load_real();
  if (live() && on_disk(p)) return disk_open(p, flags);
  return real_open(p, flags, mode);
}
int open(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  return any_open(p, flags, mode);
}
int open64(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  return any_open(p, flags, mode);
}
int creat(const char* p, mode_t mode) {
  return any_open(p, O_CREAT | O_WRONLY | O_TRUNC, static_cast<int>(mode));
}
int close(int fd) {
  load_real();
  if (live() && fd_lookup(fd) >= 0) {
    const bool w = fd_writable(fd);
    g_fd_file[fd] = 0;
    const int rc = real_close(fd);
    const int c = disk_closed(w);
    return rc ? rc : c;
  }
  return real_close(fd);
}
ssize_t read(int fd, void* b, size_t n) {
  load_real();
  if (live() && fd_lookup(fd) >= 0) return disk_read(fd, b, n);
  return real_read(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  load_real();
  if (live() && fd_lookup(fd) >= 0) return disk_write(fd, b, n);
  return real_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  load_real();
  if (live() && fd_lookup(fd) >= 0) {
    ssize_t total = 0;
    for (int i = 0; i < c; ++i) {
      if (v[i].iov_len == 0) continue;
      const ssize_t r = disk_write(fd, v[i].iov_base, v[i].iov_len);
      if (r < 0) return total ? total : -1;
      total += r;
      if (static_cast<size_t>(r) < v[i].iov_len) break;
    }
    return total;
  }
  return real_writev(fd, v, c);
}
int rename(const char* a, const char* b) {
  load_real();
  if (live() && (on_disk(a) || on_disk(b))) {
    const int i = file_find(a);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    if (disk_fault("rename_error", disk::kErrors, 0.08)) {
      ++g_err_write;
      errno = EIO;
      return -1;
    }
    if (strcmp(a, b)) {
      disk::remove(b);
      copy_str(g_files[i].name, sizeof(g_files[i].name), b);
    }
    event("disk-rename", static_cast<uint64_t>(i), 0);
    return 0;
  }
  return real_rename(a, b);
}
static int any_unlink(const char* p) {
  if (file_find(p) < 0) {
    errno = ENOENT;
    return -1;
  }
  disk::remove(p);
  return 0;
}
int unlink(const char* p) {
  load_real();
  if (live() && on_disk(p)) return any_unlink(p);
  return real_unlink(p);
}
int remove(const char* p) {
  load_real();
  if (live() && on_disk(p)) return any_unlink(p);
  return real_remove(p);
}
int fsync(int fd) {
  load_real();
  if (live() && fd_lookup(fd) >= 0) return disk_sync(fd);
  return real_fsync(fd);
}
int fdatasync(int fd) {
  load_real();
  if (live() && fd_lookup(fd) >= 0) return disk_sync(fd);
  return real_fdatasync(fd);
}
int access(const char* p, int m) {
  load_real();
  if (live() && on_disk(p)) {
    if (file_find(p) >= 0) return 0;
    errno = ENOENT;
    return -1;
  }
  return real_access(p, m);
}
static int sim_stat(const char* p, struct stat* st) {
  const int i = file_find(p);
  if (i < 0) {
    // Directories on the simulated disk exist.
    const size_t n = strlen(p);
    if (n <= kRootLen) {
      fill_bytes(st, 0, sizeof(*st));
      st->st_mode = S_IFDIR | 0755;
      return 0;
    }
    errno = ENOENT;
    return -1;
  }
  fill_bytes(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = fd_size(g_files[i].fd);
  return 0;
}
int stat(const char* p, struct stat* st) {
  load_real();
  if (live() && on_disk(p)) return sim_stat(p, st);
  return real_stat(p, st);
}
int lstat(const char* p, struct stat* st) {
  load_real();
  if (live() && on_disk(p)) return sim_stat(p, st);
  return real_lstat(p, st);
}
}  // extern "C"
