// Stands before the functions that find thread-local objects, so that they disturb every register they may disturb.
// -DEMU: __emutls_get_address, linked with --wrap; otherwise a loader of the programs built as shared objects, with __tls_get_addr.
#ifdef EMU
#define REAL __real___emutls_get_address
#define WRAP "__wrap___emutls_get_address"
void *__real___emutls_get_address(void *);
static void *(*real)(void *) = REAL;
#else
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#define WRAP "__tls_get_addr"
static void *(*real)(void *);
#endif
static void *get(void *p) __attribute__((used));
static void *get(void *p) { return real(p); }
__asm__(".globl " WRAP "\n.type " WRAP ",@function\n" WRAP ":\n"
  "push %rbp\n mov %rsp, %rbp\n and $-16, %rsp\n call get\n leave\n"
  "push %rax\n mov $0x5a5a5a5a5a5a5a5a,%rax\n mov %rax,%rcx\n mov %rax,%rdx\n mov %rax,%rsi\n mov %rax,%rdi\n mov %rax,%r8\n mov %rax,%r9\n mov %rax,%r10\n mov %rax,%r11\n"
  "movq %rax,%xmm0\n movq %rax,%xmm1\n movq %rax,%xmm2\n movq %rax,%xmm3\n movq %rax,%xmm4\n movq %rax,%xmm5\n movq %rax,%xmm6\n movq %rax,%xmm7\n"
  "movq %rax,%xmm8\n movq %rax,%xmm9\n movq %rax,%xmm10\n movq %rax,%xmm11\n movq %rax,%xmm12\n movq %rax,%xmm13\n movq %rax,%xmm14\n movq %rax,%xmm15\n"
  "pop %rax\n ret\n");
#ifndef EMU
int main(int c, char **v) {
  real = (void *(*)(void *))dlsym(RTLD_NEXT, "__tls_get_addr");
  void *h = dlopen(v[1], RTLD_NOW);
  if (!real || !h) { printf("loader: %s\n", dlerror()); return 99; }
  ((int (*)(void))dlsym(h, "pmain"))();
  return 0;
}
#endif
