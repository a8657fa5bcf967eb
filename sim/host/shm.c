// Node addon: views of the shared linear memory as ArrayBuffers, and detaching them.
#include <node_api.h>
#include <stdint.h>
#include <sys/mman.h>
static void release(napi_env env, void* data, void* hint) { munmap(data, (size_t)(uintptr_t)hint); }
static napi_value map(napi_env env, napi_callback_info info) {
  size_t n = 2;
  napi_value a[2], r = NULL;
  int64_t fd = 0, len = 0;
  napi_get_cb_info(env, info, &n, a, NULL, NULL);
  napi_get_value_int64(env, a[0], &fd);
  napi_get_value_int64(env, a[1], &len);
  void* p = mmap(NULL, (size_t)len, PROT_READ | PROT_WRITE, MAP_SHARED, (int)fd, 0);
  if (p == MAP_FAILED || napi_create_external_arraybuffer(env, p, (size_t)len, release, (void*)(uintptr_t)len, &r) != napi_ok) {
    napi_throw_error(env, NULL, "map");
    return NULL;
  }
  return r;
}
static napi_value detach(napi_env env, napi_callback_info info) {
  size_t n = 1;
  napi_value a[1];
  napi_get_cb_info(env, info, &n, a, NULL, NULL);
  napi_detach_arraybuffer(env, a[0]);
  return NULL;
}
NAPI_MODULE_INIT() {
  napi_value f;
  napi_create_function(env, "map", NAPI_AUTO_LENGTH, map, NULL, &f);
  napi_set_named_property(env, exports, "map", f);
  napi_create_function(env, "detach", NAPI_AUTO_LENGTH, detach, NULL, &f);
  napi_set_named_property(env, exports, "detach", f);
  return exports;
}
