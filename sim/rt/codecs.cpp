// Wrappers (ld --wrap) around the general purpose compressors: fault points, scheduling points, and
// range checks on behalf of the uninstrumented libraries.
#include <string.h>
#include <lz4.h>
#include <zstd.h>
#include "simint.hpp"
using namespace sim;
static bool fails(CallPlan& p, uint64_t n) { return p.at >= 0 && int64_t(n) >= p.at && int64_t(n) < p.at + p.len; }
static const size_t kZErr[] = {size_t(-64), size_t(-70), size_t(-1)};  // memory_allocation, dstSize_tooSmall, GENERIC
#define PRE(src, sn, dst, dn)                                  \
  log("compress", uint64_t(sn));                               \
  pointSync();                                                 \
  checkAccess(src, sn, false, "compressor");                   \
  if (dn) checkAccess(dst, (dn) < 64 ? (dn) : 64, true, "compressor"); \
  pointSync()
static void post(const void* dst, size_t n) {
  if (!g_active || !t_self) return;
  pointSync();
  checkAccess(dst, n, true, "compressor");
  pointSync();
}
extern "C" {
size_t __real_ZSTD_compress(void*, size_t, const void*, size_t, int);
size_t __wrap_ZSTD_compress(void* d, size_t dn, const void* s, size_t sn, int l) {
  if (!g_active || !t_self) return __real_ZSTD_compress(d, dn, s, sn, l);
  const uint64_t n = g_n_compress++;
  PRE(s, sn, d, dn);
  if (fails(g_plan_compress, n)) {
    countFault(F_COMPRESS);
    log("fault_compress", n);
    return kZErr[g_plan_compress.mode % 3];
  }
  const size_t r = __real_ZSTD_compress(d, dn, s, sn, l);
  if (!ZSTD_isError(r)) post(d, r);
  return r;
}
size_t __real_ZSTD_compressCCtx(ZSTD_CCtx*, void*, size_t, const void*, size_t, int);
size_t __wrap_ZSTD_compressCCtx(ZSTD_CCtx* c, void* d, size_t dn, const void* s, size_t sn, int l) {
  if (!g_active || !t_self) return __real_ZSTD_compressCCtx(c, d, dn, s, sn, l);
  const uint64_t n = g_n_compress++;
  PRE(s, sn, d, dn);
  if (fails(g_plan_compress, n)) {
    countFault(F_COMPRESS);
    return kZErr[g_plan_compress.mode % 3];
  }
  const size_t r = __real_ZSTD_compressCCtx(c, d, dn, s, sn, l);
  if (!ZSTD_isError(r)) post(d, r);
  return r;
}
size_t __real_ZSTD_compress2(ZSTD_CCtx*, void*, size_t, const void*, size_t);
size_t __wrap_ZSTD_compress2(ZSTD_CCtx* c, void* d, size_t dn, const void* s, size_t sn) {
  if (!g_active || !t_self) return __real_ZSTD_compress2(c, d, dn, s, sn);
  const uint64_t n = g_n_compress++;
  PRE(s, sn, d, dn);
  if (fails(g_plan_compress, n)) {
    countFault(F_COMPRESS);
    return kZErr[g_plan_compress.mode % 3];
  }
  const size_t r = __real_ZSTD_compress2(c, d, dn, s, sn);
  if (!ZSTD_isError(r)) post(d, r);
  return r;
}
int __real_LZ4_compress_default(const char*, char*, int, int);
int __wrap_LZ4_compress_default(const char* s, char* d, int sn, int dn) {
  if (!g_active || !t_self) return __real_LZ4_compress_default(s, d, sn, dn);
  const uint64_t n = g_n_compress++;
  PRE(s, size_t(sn > 0 ? sn : 0), d, size_t(dn > 0 ? dn : 0));
  if (fails(g_plan_compress, n)) {
    countFault(F_COMPRESS);
    log("fault_compress", n);
    return (g_plan_compress.mode & 1) ? -1 : 0;
  }
  const int r = __real_LZ4_compress_default(s, d, sn, dn);
  if (r > 0) post(d, size_t(r));
  return r;
}
int __real_LZ4_compress_fast(const char*, char*, int, int, int);
int __wrap_LZ4_compress_fast(const char* s, char* d, int sn, int dn, int a) {
  if (!g_active || !t_self) return __real_LZ4_compress_fast(s, d, sn, dn, a);
  const uint64_t n = g_n_compress++;
  PRE(s, size_t(sn > 0 ? sn : 0), d, size_t(dn > 0 ? dn : 0));
  if (fails(g_plan_compress, n)) {
    countFault(F_COMPRESS);
    return (g_plan_compress.mode & 1) ? -1 : 0;
  }
  const int r = __real_LZ4_compress_fast(s, d, sn, dn, a);
  if (r > 0) post(d, size_t(r));
  return r;
}
size_t __real_ZSTD_decompress(void*, size_t, const void*, size_t);
size_t __wrap_ZSTD_decompress(void* d, size_t dn, const void* s, size_t sn) {
  if (!g_active || !t_self) return __real_ZSTD_decompress(d, dn, s, sn);
  const uint64_t n = g_n_decompress++;
  pointSync();
  checkAccess(s, sn, false, "decompressor");
  if (fails(g_plan_decompress, n)) {
    countFault(F_DECOMPRESS);
    log("fault_decompress", n);
    return kZErr[g_plan_decompress.mode % 3];
  }
  const size_t r = __real_ZSTD_decompress(d, dn, s, sn);
  if (!ZSTD_isError(r)) checkAccess(d, r, true, "decompressor");
  return r;
}
size_t __real_ZSTD_decompressDCtx(ZSTD_DCtx*, void*, size_t, const void*, size_t);
size_t __wrap_ZSTD_decompressDCtx(ZSTD_DCtx* c, void* d, size_t dn, const void* s, size_t sn) {
  if (!g_active || !t_self) return __real_ZSTD_decompressDCtx(c, d, dn, s, sn);
  const uint64_t n = g_n_decompress++;
  pointSync();
  checkAccess(s, sn, false, "decompressor");
  if (fails(g_plan_decompress, n)) {
    countFault(F_DECOMPRESS);
    return kZErr[g_plan_decompress.mode % 3];
  }
  const size_t r = __real_ZSTD_decompressDCtx(c, d, dn, s, sn);
  if (!ZSTD_isError(r)) checkAccess(d, r, true, "decompressor");
  return r;
}
int __real_LZ4_decompress_safe(const char*, char*, int, int);
int __wrap_LZ4_decompress_safe(const char* s, char* d, int sn, int dn) {
  if (!g_active || !t_self) return __real_LZ4_decompress_safe(s, d, sn, dn);
  const uint64_t n = g_n_decompress++;
  pointSync();
  if (sn > 0) checkAccess(s, size_t(sn), false, "decompressor");
  if (fails(g_plan_decompress, n)) {
    countFault(F_DECOMPRESS);
    log("fault_decompress", n);
    return -1;
  }
  const int r = __real_LZ4_decompress_safe(s, d, sn, dn);
  if (r > 0) checkAccess(d, size_t(r), true, "decompressor");
  return r;
}
}
