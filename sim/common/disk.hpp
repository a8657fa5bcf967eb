// A simulated disk mounted at /simdisk: an in-memory file system behind the C library's file functions, with faults.
#pragma once
#include "cloud.hpp"
namespace disk {
using cl::Bytes;
enum OpKind { OPEN_R, OPEN_W, READ, WRITE, CLOSE, MMAP, STAT, READDIR, kOps };
// how an operation goes wrong
enum Mode { FAIL, SHORT, LOSE };  // error; fewer bytes than asked for (legal); close fails and written data is lost
struct Fault {
  std::string path;  // of the file (or directory); empty: any
  int op = READ;
  int64_t at = 0;     // first affected operation of that kind on that path
  int64_t count = 1;  // how many, from then on
  int mode = FAIL;
  uint64_t seed = 0;
};
void reset();  // empty disk, no faults, unlimited space
void mkdir(const std::string& path);
void put(const std::string& path, const Bytes& b);
bool get(const std::string& path, Bytes& b);
std::vector<std::string> list();  // all files, sorted
void remove(const std::string& path);
void arm(const Fault& f);
void disarm();
void setFree(int64_t bytes);  // -1 unlimited
// paths that a fault (or the full disk) has hit since the last disarm()
bool wasHit(const std::string& path);
size_t hits();
size_t openFiles();
}  // namespace disk
