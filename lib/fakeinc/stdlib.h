#ifndef FAKE_stdlib_h
#define FAKE_stdlib_h
#include <stddef.h>
void *malloc(size_t n); void free(void *p); void exit(int c); typedef int int32_t;
#endif
