// Stand-in for cuFFT: the discrete Fourier transform from its definition over the layout of the plan.
#pragma once
struct cufftDoubleComplex { double x, y; };
struct cufftComplex { float x, y; };
typedef int cufftHandle;
typedef enum { CUFFT_SUCCESS = 0, CUFFT_INVALID_PLAN = 1, CUFFT_INVALID_VALUE = 4, CUFFT_INVALID_TYPE = 3 } cufftResult;
typedef enum { CUFFT_C2C = 0x29, CUFFT_Z2Z = 0x69 } cufftType;
#define CUFFT_FORWARD -1
#define CUFFT_INVERSE 1
cufftResult cufftPlanMany(cufftHandle* plan, int rank, int* n, int* inembed, int istride, int idist, int* onembed, int ostride, int odist, cufftType type, int batch);
cufftResult cufftExecC2C(cufftHandle plan, cufftComplex* in, cufftComplex* out, int dir);
cufftResult cufftExecZ2Z(cufftHandle plan, cufftDoubleComplex* in, cufftDoubleComplex* out, int dir);
cufftResult cufftDestroy(cufftHandle plan);
