#ifndef FAKE_complex_h
#define FAKE_complex_h
#define complex _Complex
double creal(double _Complex x); double cimag(double _Complex x); double cabs(double _Complex x); double _Complex cpow(double _Complex x, double _Complex y);
extern double _Complex I;
#endif
