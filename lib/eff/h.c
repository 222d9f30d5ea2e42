// Called by the programs under test: records the calls and disturbs every register a call may disturb.
#include <stdio.h>
#include <stdarg.h>
static void dirty(void) {
  __asm__ volatile("mov $0x5a5a5a5a5a5a5a5a,%%rax\n mov %%rax,%%rcx\n mov %%rax,%%rdx\n mov %%rax,%%rsi\n mov %%rax,%%rdi\n mov %%rax,%%r8\n mov %%rax,%%r9\n mov %%rax,%%r10\n mov %%rax,%%r11\n"
    "movq %%rax,%%xmm0\n movq %%rax,%%xmm1\n movq %%rax,%%xmm2\n movq %%rax,%%xmm3\n movq %%rax,%%xmm4\n movq %%rax,%%xmm5\n movq %%rax,%%xmm6\n movq %%rax,%%xmm7\n"
    "movq %%rax,%%xmm8\n movq %%rax,%%xmm9\n movq %%rax,%%xmm10\n movq %%rax,%%xmm11\n movq %%rax,%%xmm12\n movq %%rax,%%xmm13\n movq %%rax,%%xmm14\n movq %%rax,%%xmm15\n"
    "fldpi\n fldpi\n fldpi\n fldpi\n fldpi\n fldpi\n fldpi\n fldpi\n fstp %%st(0)\n fstp %%st(0)\n fstp %%st(0)\n fstp %%st(0)\n fstp %%st(0)\n fstp %%st(0)\n fstp %%st(0)\n fstp %%st(0)\n"
    ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7",
    "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "cc", "memory");
}
static long res(int id, long s) { return ((s * 3 + id) % 50 + 50) % 50; }
void ev0(int id) { printf("E %d", id); }
void ev1(long a) { printf(" %ld", a); }
long ev2(int id, long s) { printf("\n"); dirty(); return res(id, s); }
long c_l(int id, long a) { ev0(id); ev1(a); return ev2(id, a); }
unsigned char c_c(int id, short a) { ev0(id); ev1(a); return ev2(id, a); }
double c_d(int id, double a) { ev0(id); ev1(a); return ev2(id, a); }
float c_f(int id, float a) { ev0(id); ev1(a); return ev2(id, a); }
long double c_e(int id, long double a) { ev0(id); ev1(a); return ev2(id, a); }
int c_i2(int id, int a, int b) { ev0(id); ev1(a); ev1(b); return ev2(id, (long)a + b); }
double c_d3(int id, double a, float b, double c) { ev0(id); ev1(a); ev1(b); ev1(c); return ev2(id, a + b + c); }
long c_m(int id, long a, double b, long double c, float d, int e, long f, long g, long h, long double i) {
  ev0(id); ev1(a); ev1(b); ev1(c); ev1(d); ev1(e); ev1(f); ev1(g); ev1(h); ev1(i);
  return ev2(id, a + (long)b + (long)c + (long)d + e + f + g + h + (long)i);
}
int c_va(int id, int n, ...) {
  va_list ap; long s = 0;
  va_start(ap, n); ev0(id);
  for (int i = 0; i < n; i++) { long v = i % 3 == 0 ? va_arg(ap, int) : i % 3 == 1 ? (long)va_arg(ap, double) : va_arg(ap, long); ev1(v); s += v; }
  va_end(ap);
  return ev2(id, s);
}
void c_v(int id, int a) { ev0(id); ev1(a); ev2(id, a); }
int c_gi(int id, int a, int *g) { ev0(id); ev1(a); ev2(id, a); return g[((a % 4) + 4) % 4]++; }
void mv(long v) { printf(" %ld", v); }
void ms(int k, long v) { printf("S %d %ld", k, v); dirty(); }
void me(void) { printf("\n"); }
