/* Declarations of the MEX API used by Octave/loadsrf.c (analysis stub; never linked or run). */
#ifndef MEX_H_STUB
#define MEX_H_STUB
#include <stdlib.h>
#include <stddef.h>
typedef struct mxArray_tag mxArray;
typedef size_t mwSize; typedef size_t mwIndex;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
const char *mexFunctionName(void);
char *mxArrayToString(const mxArray *a);
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **keys);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
void mxSetFieldByNumber(mxArray *a, mwIndex i, int k, mxArray *v);
double *mxGetPr(const mxArray *a);
int mexPrintf(const char *fmt, ...);
void mexErrMsgTxt(const char *s);
void mexWarnMsgTxt(const char *s);
#endif
