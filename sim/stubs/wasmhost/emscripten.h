// Stand-in for the Emscripten header: output on the console is only counted.
#pragma once
extern "C" void sim_em_asm();
#define EM_ASM(...) sim_em_asm()
#define EMSCRIPTEN_KEEPALIVE
