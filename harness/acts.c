/* Activation functions for dynamic loading.  K makes libraries with the same symbols but other functions. */
#ifndef K
#define K 1
#endif
void cube(int n, float *a) { for (int i = 0; i < n; i++) a[i] = a[i] * a[i] * a[i] * K; }
void cube_derivative(int n, const float *act, float *d) { for (int i = 0; i < n; i++) d[i] *= act[i] > 0 ? 2 * K : 3 * K; }
void half(int n, float *a) { for (int i = 0; i < n; i++) a[i] = a[i] / 2 * K; }
void half_derivative(int n, const float *act, float *d) { (void) act; for (int i = 0; i < n; i++) d[i] *= 0.5f * K; }
void bare(int n, float *a) { for (int i = 0; i < n; i++) a[i] = a[i] + K; }        /* no derivative */
void negate_all_of_the_outputs_of_the_layer_in_one_single_call(int n, float *a) { for (int i = 0; i < n; i++) a[i] = -a[i] * K; }
void negate_all_of_the_outputs_of_the_layer_in_one_single_call_derivative(int n, const float *act, float *d) { (void) act; for (int i = 0; i < n; i++) d[i] = -d[i] * K; }
void relu(int n, float *a) { for (int i = 0; i < n; i++) a[i] = a[i] * 7 * K; }        /* as a built-in one, but another */
void relu_derivative(int n, const float *act, float *d) { (void) act; for (int i = 0; i < n; i++) d[i] *= 7 * K; }
#ifdef MANY
#define F(i) void f##i(int n, float *a) { for (int j = 0; j < n; j++) a[j] = a[j] + i * K; } \
             void f##i##_derivative(int n, const float *act, float *d) { (void) act; for (int j = 0; j < n; j++) d[j] *= (i + 1) * K; }
#define F10(i) F(i##0) F(i##1) F(i##2) F(i##3) F(i##4) F(i##5) F(i##6) F(i##7) F(i##8) F(i##9)
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9)
F10(1) F10(2) F10(3) F10(4) F10(5) F10(6) F10(7) F10(8) F10(9)
#endif
