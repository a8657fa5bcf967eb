// Stand-in for the Emscripten header: console output is dropped.
#pragma once
#define EM_ASM(...) ((void)0)
#define EMSCRIPTEN_KEEPALIVE
