/* Calls into the extended-precision functions of the system's math library. */
typedef long double L;
double vh_l1(L (*f)(L), double x) { return (double)f(x); }
double vh_l2(L (*f)(L, L), double x, double y) { return (double)f(x, y); }
double vh_ln(L (*f)(int, L), int n, double x) { return (double)f(n, x); }
