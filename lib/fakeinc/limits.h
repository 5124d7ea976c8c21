#ifndef FAKE_limits_h
#define FAKE_limits_h

#endif
