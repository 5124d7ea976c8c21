#ifndef FAKE_stdio_h
#define FAKE_stdio_h
typedef struct _FILE FILE; extern FILE *stderr; int printf(const char *f, ...); int fprintf(FILE *s, const char *f, ...);
#endif
