#ifndef FAKE_stddef_h
#define FAKE_stddef_h
typedef unsigned long size_t; typedef long ptrdiff_t;
#endif
