#ifndef VERIF_EMSCRIPTEN_H
#define VERIF_EMSCRIPTEN_H
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#endif
