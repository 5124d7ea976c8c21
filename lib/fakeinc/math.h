#ifndef FAKE_math_h
#define FAKE_math_h
double sqrt(double x); double pow(double x, double y); double fabs(double x);
#endif
