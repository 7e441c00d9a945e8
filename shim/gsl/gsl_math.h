#ifndef SIM_GSL_MATH_H
#define SIM_GSL_MATH_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct gsl_function_struct { double (*function)(double x, void *params); void *params; } gsl_function;
#define GSL_FN_EVAL(F, x) (*((F)->function))(x, (F)->params)
#ifdef __cplusplus
}
#endif
#endif
