#include "disk.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
namespace disk {
namespace {
struct Open {
  std::string path;
  bool write = false, dir = false;
};
struct Dir {
  std::vector<std::string> names;
  size_t at = 0;
  int fd = -1;
  std::string path;
  struct dirent ent;
};
struct State {
  std::map<std::string, Bytes> files;
  std::set<std::string> dirs;
  std::map<int, Open> open;
  std::map<std::pair<std::string, int>, int64_t> count;
  std::vector<Fault> faults;
  std::set<std::string> hit;
  size_t hits = 0;
  int64_t freeBytes = -1;
  std::set<Dir*> fakeDirs;
};
State* S;
State& st() {
  if (!S) S = new State;
  return *S;
}
bool ours(const char* p) { return p && S && strncmp(p, "/simdisk", 8) == 0 && (p[8] == 0 || p[8] == '/'); }
std::string norm(const char* p) {
  std::vector<std::string> parts;
  for (const char* c = p; *c;) {
    const char* e = strchrnul(c, '/');
    const std::string w(c, e);
    if (w == "..") {
      if (parts.size() > 1) parts.pop_back();
    } else if (!w.empty() && w != ".") {
      parts.push_back(w);
    }
    c = *e ? e + 1 : e;
  }
  std::string s;
  for (auto& w : parts) s += "/" + w;
  return s;
}
const Fault* fault(const std::string& path, int op) {
  const int64_t n = st().count[{path, op}]++;
  for (auto& f : st().faults)
    if ((f.path.empty() || f.path == path) && f.op == op && n >= f.at && n < f.at + f.count) return &f;
  return nullptr;
}
void note(const std::string& path, int kind) {
  st().hit.insert(path);
  st().hits++;
  sim::countFault(kind);
  sim::log("disk fault", uint64_t(kind), st().hits);
}
struct Quiet {  // the simulator's own allocations are neither counted nor failed
  sim::AllocPause p;
};
const int kOpFault[] = {sim::F_DISK_OPEN, sim::F_DISK_OPEN, sim::F_DISK_READ, sim::F_DISK_WRITE, sim::F_DISK_CLOSE, sim::F_DISK_MMAP, sim::F_DISK_READ, sim::F_DISK_READ};
Open* find(int fd) {
  if (!S) return nullptr;
  auto it = S->open.find(fd);
  return it == S->open.end() ? nullptr : &it->second;
}
int doOpen(const char* p, int flags) {
  Quiet q;
  const std::string path = norm(p);
  const bool w = (flags & O_ACCMODE) != O_RDONLY;
  if (auto* f = fault(path, w ? OPEN_W : OPEN_R)) {
    note(path, sim::F_DISK_OPEN);
    errno = (f->seed & 1) ? EACCES : EIO;
    return -1;
  }
  const bool dir = st().dirs.count(path);
  if (dir && w) return errno = EISDIR, -1;
  if (!dir && (flags & O_DIRECTORY)) return errno = st().files.count(path) ? ENOTDIR : ENOENT, -1;
  if (!dir && !w && !st().files.count(path)) return errno = ENOENT, -1;
  if (!dir && w) {
    const std::string parent = path.substr(0, path.rfind('/'));
    if (!st().dirs.count(parent)) return errno = ENOENT, -1;
    if (!st().files.count(path) && !(flags & O_CREAT)) return errno = ENOENT, -1;
    if (!st().files.count(path) || (flags & O_TRUNC)) {
      if (st().freeBytes >= 0) st().freeBytes += int64_t(st().files[path].size());
      st().files[path].clear();
    }
  }
  const int fd = int(syscall(SYS_memfd_create, "simdisk", 0u));
  if (fd < 0) sim::internalError("memfd_create");
  if (!dir) {
    const Bytes& b = st().files[path];
    for (size_t o = 0; o < b.size();) {
      const long n = syscall(SYS_write, fd, b.data() + o, b.size() - o);
      if (n <= 0) sim::internalError("memfd write");
      o += size_t(n);
    }
    if (!(flags & O_APPEND)) syscall(SYS_lseek, fd, 0L, SEEK_SET);
  }
  st().open[fd] = Open{path, w, dir};
  return fd;
}
void store(int fd, const Open& o, size_t keep = SIZE_MAX) {  // the memfd's content becomes the file's
  struct stat sb;
  if (syscall(SYS_fstat, fd, &sb) != 0) sim::internalError("fstat");
  Bytes b(size_t(sb.st_size));
  for (size_t at = 0; at < b.size();) {
    const long n = syscall(SYS_pread64, fd, b.data() + at, b.size() - at, long(at));
    if (n <= 0) sim::internalError("memfd read");
    at += size_t(n);
  }
  if (b.size() > keep) b.resize(keep);
  st().files[o.path] = std::move(b);
}
// returns 0, or -1 with errno; the descriptor is gone either way
int beforeClose(int fd, Open& o) {
  Quiet q;
  int rc = 0;
  if (auto* f = fault(o.path, CLOSE)) {
    note(o.path, sim::F_DISK_CLOSE);
    rc = -1;
    if (o.write && f->mode == LOSE) store(fd, o, size_t(sim::Rng(f->seed).below(st().files[o.path].size() + 1)));
    errno = f->mode == LOSE ? ENOSPC : EIO;
  }
  const int e = errno;
  st().open.erase(fd);
  errno = e;
  return rc;
}
ssize_t doRead(int fd, void* buf, size_t n, Open& o) {
  {
    Quiet q;
    if (auto* f = fault(o.path, READ)) {
      if (f->mode == SHORT) {
        if (n > 1) {
          n = 1 + size_t(sim::Rng(f->seed + uint64_t(n)).below(n - 1));
          sim::countFault(sim::F_DISK_SHORT);
        }
      } else {
        note(o.path, sim::F_DISK_READ);
        return errno = EIO, -1;
      }
    }
  }
  return syscall(SYS_read, fd, buf, n);
}
ssize_t doWrite(int fd, const void* buf, size_t n, Open& o) {
  Quiet q;
  if (auto* f = fault(o.path, WRITE)) {
    if (f->mode == SHORT) {
      if (n > 1) {
        n = 1 + size_t(sim::Rng(f->seed + uint64_t(n)).below(n - 1));
        sim::countFault(sim::F_DISK_SHORT);
      }
    } else {
      note(o.path, sim::F_DISK_WRITE);
      return errno = EIO, -1;
    }
  }
  if (st().freeBytes >= 0 && int64_t(n) > st().freeBytes) {
    note(o.path, sim::F_DISK_FULL);
    n = size_t(std::max<int64_t>(0, st().freeBytes));
    if (n == 0) return errno = ENOSPC, -1;
  }
  const ssize_t w = syscall(SYS_write, fd, buf, n);
  if (w > 0 && st().freeBytes >= 0) st().freeBytes -= w;
  if (w > 0) store(fd, o);
  return w;
}
template <class T>
T real(const char* name) {
  return reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
}
bool statOf(const char* p, mode_t& mode, uint64_t& size) {  // false with errno
  Quiet q;
  const std::string path = norm(p);
  if (auto* f = fault(path, STAT)) {
    note(path, sim::F_DISK_READ);
    errno = (f->seed & 1) ? EACCES : EIO;
    return false;
  }
  if (st().dirs.count(path)) {
    mode = S_IFDIR | 0755;
    size = 4096;
    return true;
  }
  auto it = st().files.find(path);
  if (it == st().files.end()) return errno = ENOENT, false;
  mode = S_IFREG | 0644;
  size = it->second.size();
  return true;
}
int doStat(const char* p, struct stat* b) {
  mode_t m;
  uint64_t s;
  if (!statOf(p, m, s)) return -1;
  memset(b, 0, sizeof *b);
  b->st_mode = m;
  b->st_size = off_t(s);
  b->st_nlink = 1;
  b->st_ino = 1 + std::hash<std::string>()(norm(p)) % 1000000;
  b->st_dev = 77;
  return 0;
}
}  // namespace
void reset() {
  delete S;
  S = nullptr;
  st().dirs.insert("/simdisk");
}
void mkdir(const std::string& p) { st().dirs.insert(p); }
void put(const std::string& p, const Bytes& b) { st().files[p] = b; }
bool get(const std::string& p, Bytes& b) {
  auto it = st().files.find(p);
  if (it == st().files.end()) return false;
  b = it->second;
  return true;
}
std::vector<std::string> list() {
  std::vector<std::string> v;
  for (auto& f : st().files) v.push_back(f.first);
  return v;
}
void remove(const std::string& p) { st().files.erase(p); }
void arm(const Fault& f) { st().faults.push_back(f); }
void disarm() {
  st().faults.clear();
  st().hit.clear();
  st().hits = 0;
  st().count.clear();
  st().freeBytes = -1;
}
void setFree(int64_t b) { st().freeBytes = b; }
bool wasHit(const std::string& p) { return st().hit.count(p) != 0; }
size_t hits() { return st().hits; }
size_t openFiles() { return st().open.size(); }
}  // namespace disk
using namespace disk;
extern "C" {
int open(const char* p, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list a;
    va_start(a, flags);
    m = va_arg(a, mode_t);
    va_end(a);
  }
  if (ours(p)) return doOpen(p, flags);
  return int(syscall(SYS_openat, AT_FDCWD, p, flags, m));
}
int open64(const char* p, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list a;
    va_start(a, flags);
    m = va_arg(a, mode_t);
    va_end(a);
  }
  return open(p, flags, m);
}
int openat(int d, const char* p, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list a;
    va_start(a, flags);
    m = va_arg(a, mode_t);
    va_end(a);
  }
  if (ours(p)) return doOpen(p, flags);
  return int(syscall(SYS_openat, d, p, flags, m));
}
int __openat_2(int d, const char* p, int flags) { return openat(d, p, flags, 0); }
int __open_2(const char* p, int flags) { return open(p, flags, 0); }
FILE* fopen(const char* p, const char* mode) {
  if (!ours(p)) return real<FILE* (*)(const char*, const char*)>("fopen")(p, mode);
  const bool plus = strchr(mode, '+');
  int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
  const int fd = doOpen(p, fl);
  if (fd < 0) return nullptr;
  return fdopen(fd, mode);
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
int fclose(FILE* f) {
  static auto r = real<int (*)(FILE*)>("fclose");
  if (S && f) {
    const int fd = fileno(f);
    if (Open* o = find(fd)) {
      const int rc = beforeClose(fd, *o), e = errno;
      const int rc2 = r(f);
      if (rc) errno = e;
      return rc ? EOF : rc2;
    }
  }
  return r(f);
}
// libstdc++ only opens and closes with stdio; programs that also write with it are not buffered here
size_t fwrite(const void* b, size_t size, size_t n, FILE* f) {
  const int fd = S && f ? fileno(f) : -1;
  if (fd < 0 || !find(fd)) return real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite")(b, size, n, f);
  size_t done = 0;
  while (done < size * n) {
    const ssize_t k = write(fd, static_cast<const char*>(b) + done, size * n - done);
    if (k <= 0) break;
    done += size_t(k);
  }
  return size ? done / size : 0;
}
size_t fread(void* b, size_t size, size_t n, FILE* f) {
  const int fd = S && f ? fileno(f) : -1;
  if (fd < 0 || !find(fd)) return real<size_t (*)(void*, size_t, size_t, FILE*)>("fread")(b, size, n, f);
  size_t done = 0;
  while (done < size * n) {
    const ssize_t k = read(fd, static_cast<char*>(b) + done, size * n - done);
    if (k <= 0) break;
    done += size_t(k);
  }
  return size ? done / size : 0;
}
int close(int fd) {
  if (Open* o = find(fd)) {
    const int rc = beforeClose(fd, *o), e = errno;
    syscall(SYS_close, fd);
    if (rc) errno = e;
    return rc;
  }
  return int(syscall(SYS_close, fd));
}
ssize_t read(int fd, void* b, size_t n) {
  if (Open* o = find(fd)) return doRead(fd, b, n, *o);
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (Open* o = find(fd)) return doWrite(fd, b, n, *o);
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (Open* o = find(fd)) {
    Bytes all;
    {
      Quiet q;
      for (int i = 0; i < n; ++i) all.insert(all.end(), static_cast<uint8_t*>(v[i].iov_base), static_cast<uint8_t*>(v[i].iov_base) + v[i].iov_len);
    }
    const ssize_t r = doWrite(fd, all.data(), all.size(), *o);
    Quiet q;
    Bytes().swap(all);
    return r;
  }
  return syscall(SYS_writev, fd, v, n);
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (fd >= 0)
    if (Open* o = find(fd)) {
      Quiet q;
      if (fault(o->path, MMAP)) {
        note(o->path, sim::F_DISK_MMAP);
        errno = ENODEV;
        return MAP_FAILED;
      }
    }
  return reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t off) { return mmap(a, n, prot, flags, fd, off); }
int stat(const char* p, struct stat* b) {
  if (ours(p)) return doStat(p, b);
  return int(syscall(SYS_newfstatat, AT_FDCWD, p, b, 0));
}
int lstat(const char* p, struct stat* b) {
  if (ours(p)) return doStat(p, b);
  return int(syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW));
}
int statx(int d, const char* p, int flags, unsigned mask, struct statx* b) {
  if (!ours(p)) return int(syscall(SYS_statx, d, p, flags, mask, b));
  mode_t m;
  uint64_t s;
  if (!statOf(p, m, s)) return -1;
  memset(b, 0, sizeof *b);
  b->stx_mask = STATX_BASIC_STATS;
  b->stx_mode = uint16_t(m);
  b->stx_size = s;
  b->stx_nlink = 1;
  b->stx_ino = 1;
  return 0;
}
DIR* fdopendir(int fd) {
  Open* o = find(fd);
  if (!o) return real<DIR* (*)(int)>("fdopendir")(fd);
  if (!o->dir) return errno = ENOTDIR, nullptr;
  Quiet q;
  auto* d = new Dir;
  d->fd = fd;
  d->path = o->path;
  const std::string pre = o->path + "/";
  std::vector<std::string> n;
  for (auto& f : st().files)
    if (f.first.compare(0, pre.size(), pre) == 0 && f.first.find('/', pre.size()) == std::string::npos) n.push_back(f.first.substr(pre.size()));
  for (auto& f : st().dirs)
    if (f.compare(0, pre.size(), pre) == 0 && f.find('/', pre.size()) == std::string::npos) n.push_back(f.substr(pre.size()));
  n.push_back(".");
  n.push_back("..");
  std::sort(n.begin(), n.end());
  while (!n.empty()) {  // a directory has no order
    const size_t k = sim::choose(uint32_t(n.size()), "readdir");
    d->names.push_back(n[k]);
    n.erase(n.begin() + long(k));
  }
  st().fakeDirs.insert(d);
  return reinterpret_cast<DIR*>(d);
}
DIR* opendir(const char* p) {
  if (!ours(p)) return real<DIR* (*)(const char*)>("opendir")(p);
  const int fd = doOpen(p, O_RDONLY | O_DIRECTORY);
  return fd < 0 ? nullptr : fdopendir(fd);
}
struct dirent* readdir(DIR* d) {
  auto* x = reinterpret_cast<Dir*>(d);
  if (!S || !S->fakeDirs.count(x)) return real<struct dirent* (*)(DIR*)>("readdir")(d);
  Quiet q;
  if (fault(x->path, READDIR)) {
    note(x->path, sim::F_DISK_READ);
    errno = EIO;
    return nullptr;
  }
  if (x->at == x->names.size()) return nullptr;
  const std::string& n = x->names[x->at++];
  memset(&x->ent, 0, sizeof x->ent);
  x->ent.d_ino = 1;
  x->ent.d_type = DT_UNKNOWN;
  snprintf(x->ent.d_name, sizeof x->ent.d_name, "%s", n.c_str());
  return &x->ent;
}
struct dirent64* readdir64(DIR* d) { return reinterpret_cast<struct dirent64*>(readdir(d)); }
int dirfd(DIR* d) {
  auto* x = reinterpret_cast<Dir*>(d);
  if (!S || !S->fakeDirs.count(x)) return real<int (*)(DIR*)>("dirfd")(d);
  return x->fd;
}
int closedir(DIR* d) {
  auto* x = reinterpret_cast<Dir*>(d);
  if (!S || !S->fakeDirs.count(x)) return real<int (*)(DIR*)>("closedir")(d);
  Quiet q;
  S->fakeDirs.erase(x);
  S->open.erase(x->fd);
  syscall(SYS_close, x->fd);
  delete x;
  return 0;
}
int remove(const char* p) {
  if (!ours(p)) return real<int (*)(const char*)>("remove")(p);
  Quiet q;
  return st().files.erase(norm(p)) ? 0 : (errno = ENOENT, -1);
}
int unlink(const char* p) {
  if (!ours(p)) return int(syscall(SYS_unlink, p));
  return remove(p);
}
int rename(const char* a, const char* b) {
  if (!ours(a) && !ours(b)) return real<int (*)(const char*, const char*)>("rename")(a, b);
  Quiet q;
  auto it = st().files.find(norm(a));
  if (it == st().files.end()) return errno = ENOENT, -1;
  Bytes c = std::move(it->second);
  st().files.erase(it);
  st().files[norm(b)] = std::move(c);
  return 0;
}
char* realpath(const char* p, char* out) {
  if (!ours(p)) return real<char* (*)(const char*, char*)>("realpath")(p, out);
  mode_t m;
  uint64_t s;
  if (!statOf(p, m, s)) return nullptr;
  const std::string n = norm(p);
  if (!out) out = static_cast<char*>(malloc(n.size() + 1));
  if (out) memcpy(out, n.c_str(), n.size() + 1);
  return out;
}
int mkdir(const char* p, mode_t mode) {
  if (!ours(p)) return int(syscall(SYS_mkdir, p, mode));
  Quiet q;
  const std::string path = norm(p);
  if (st().dirs.count(path) || st().files.count(path)) return errno = EEXIST, -1;
  if (!st().dirs.count(path.substr(0, path.rfind('/')))) return errno = ENOENT, -1;
  if (fault(path, OPEN_W)) {
    note(path, sim::F_DISK_OPEN);
    return errno = ENOSPC, -1;
  }
  st().dirs.insert(path);
  return 0;
}
int access(const char* p, int mode) {
  if (!ours(p)) return int(syscall(SYS_access, p, mode));
  mode_t m;
  uint64_t s;
  return statOf(p, m, s) ? 0 : -1;
}
int fsync(int fd) {
  if (find(fd)) return 0;
  return int(syscall(SYS_fsync, fd));
}
}
