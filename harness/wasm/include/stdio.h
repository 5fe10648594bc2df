#ifndef VERIF_STDIO_H
#define VERIF_STDIO_H
typedef __SIZE_TYPE__ size_t;
int printf(const char *, ...);
#endif
