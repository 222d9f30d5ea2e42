// Calls the functions under test with register and stack images prescribed by CallConv.tla and
// judges the images they produce when they call.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8;
typedef unsigned long u64;
struct piece { char r; int n, o, s; };
struct val { int sz; u8 *v, *m; int np; struct piece p[2]; };
struct tc { int id, np, var; char ret; int stk, nfp, stal; struct val *p, r; } *tc;
static int ntc;
extern void (*calls[])(void);
extern void *gs[];
int cur;
struct { u64 rax, gp[6], rsp; u8 xmm[8][16]; unsigned env[7], mxcsr; } sv;
struct { u64 rax, rdx; u8 xmm[2][16], ld[16]; u64 x87; } rs;
struct { u64 fn, rax, gp[6]; u8 xmm[8][16]; u64 stk, stksz, x87, rsp; } in;
struct { u64 rax, rdx; u8 xmm[2][16], ld[16]; u64 cs[6], rsp; unsigned env[7]; } out;
u64 save_rsp;
_Alignas(64) u8 altstk[65536];
void cap(void);
void do_inject(void);
__asm__(".text\n.globl cap\ncap:\n"
  "mov %rax,sv(%rip)\n mov %rdi,sv+8(%rip)\n mov %rsi,sv+16(%rip)\n mov %rdx,sv+24(%rip)\n mov %rcx,sv+32(%rip)\n mov %r8,sv+40(%rip)\n mov %r9,sv+48(%rip)\n mov %rsp,sv+56(%rip)\n"
  "movups %xmm0,sv+64(%rip)\n movups %xmm1,sv+80(%rip)\n movups %xmm2,sv+96(%rip)\n movups %xmm3,sv+112(%rip)\n movups %xmm4,sv+128(%rip)\n movups %xmm5,sv+144(%rip)\n movups %xmm6,sv+160(%rip)\n movups %xmm7,sv+176(%rip)\n"
  "fnstenv sv+192(%rip)\n fninit\n stmxcsr sv+220(%rip)\n"
  "lea altstk+65536(%rip),%rsp\n call on_call\n mov sv+56(%rip),%rsp\n"
  "mov $0xa7a7a7a7a7a7a7a7,%rcx\n mov %rcx,%rsi\n mov %rcx,%rdi\n mov %rcx,%r8\n mov %rcx,%r9\n mov %rcx,%r10\n mov %rcx,%r11\n"
  "movq %rcx,%xmm2\n movq %rcx,%xmm3\n movq %rcx,%xmm4\n movq %rcx,%xmm5\n movq %rcx,%xmm6\n movq %rcx,%xmm7\n movq %rcx,%xmm8\n movq %rcx,%xmm9\n movq %rcx,%xmm10\n movq %rcx,%xmm11\n movq %rcx,%xmm12\n movq %rcx,%xmm13\n movq %rcx,%xmm14\n movq %rcx,%xmm15\n"
  "mov rs(%rip),%rax\n mov rs+8(%rip),%rdx\n movups rs+16(%rip),%xmm0\n movups rs+32(%rip),%xmm1\n"
  "cmpq $0,rs+64(%rip)\n je 1f\n fldt rs+48(%rip)\n1: ret\n"
  ".globl do_inject\ndo_inject:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,save_rsp(%rip)\n"
  "mov in+200(%rip),%rcx\n sub %rcx,%rsp\n and $-64,%rsp\n mov %rsp,%rdi\n mov in+192(%rip),%rsi\n rep movsb\n mov %rsp,in+216(%rip)\n"
  "movups in+64(%rip),%xmm0\n movups in+80(%rip),%xmm1\n movups in+96(%rip),%xmm2\n movups in+112(%rip),%xmm3\n movups in+128(%rip),%xmm4\n movups in+144(%rip),%xmm5\n movups in+160(%rip),%xmm6\n movups in+176(%rip),%xmm7\n"
  "fninit\n mov $0x1111111122222222,%rbx\n lea 1(%rbx),%rbp\n lea 2(%rbx),%r12\n lea 3(%rbx),%r13\n lea 4(%rbx),%r14\n lea 5(%rbx),%r15\n lea 9(%rbx),%r10\n lea 10(%rbx),%r11\n"
  "mov in+8(%rip),%rax\n mov in+16(%rip),%rdi\n mov in+24(%rip),%rsi\n mov in+32(%rip),%rdx\n mov in+40(%rip),%rcx\n mov in+48(%rip),%r8\n mov in+56(%rip),%r9\n"
  "call *in(%rip)\n"
  "mov %rax,out(%rip)\n mov %rdx,out+8(%rip)\n movups %xmm0,out+16(%rip)\n movups %xmm1,out+32(%rip)\n"
  "mov %rbx,out+64(%rip)\n mov %rbp,out+72(%rip)\n mov %r12,out+80(%rip)\n mov %r13,out+88(%rip)\n mov %r14,out+96(%rip)\n mov %r15,out+104(%rip)\n mov %rsp,out+112(%rip)\n"
  "fnstenv out+120(%rip)\n fldenv out+120(%rip)\n cmpq $0,in+208(%rip)\n je 1f\n fstpt out+48(%rip)\n1: fninit\n cld\n"
  "mov save_rsp(%rip),%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
static struct tc *find(int id) {
  for (int i = 0; i < ntc; i++) if (tc[i].id == id) return tc + i;
  printf("? %d\n", id); exit(3);
}
static void cmp(int id, const char *what, int k, const u8 *got, struct val *v, int o, int s) {
  for (int i = 0; i < s; i++)
    if ((got[i] ^ v->v[o + i]) & v->m[o + i]) { printf("%d %s %d: byte %d is %02x instead of %02x (mask %02x)\n", id, what, k, o + i, got[i], v->v[o + i], v->m[o + i]); return; }
}
static u8 junk(void) { static unsigned x = 12345; x = x * 1103515245 + 12345; return x >> 16; }
static void junkf(void *p, int n) { for (int i = 0; i < n; i++) ((u8 *)p)[i] = junk(); }
static void x87(int id, const char *what, unsigned *env, int used) {
  int n = 0;
  for (int i = 0; i < 8; i++) n += ((env[2] >> (2 * i)) & 3) != 3;
  if (n != used) printf("%d %s: %d x87 registers in use instead of %d\n", id, what, n, used);
  if ((env[0] & 0xf3f) != 0x33f) printf("%d %s: x87 control word %x\n", id, what, env[0] & 0xffff);
}
void on_call(void) {
  struct tc *t = find(cur);
  int id = t->id;
  if (sv.rsp % 16 != 8) printf("%d call: stack not aligned\n", id);
  if ((sv.rsp + 8) % t->stal) printf("%d call: stack arguments not aligned to %d\n", id, t->stal);
  x87(id, "call", sv.env, 0);
  if ((sv.mxcsr & 0xffc0) != 0x1f80) printf("%d call: mxcsr %x\n", id, sv.mxcsr);
  if (t->var && ((sv.rax & 255) < t->nfp || (sv.rax & 255) > 8)) printf("%d call: al is %d, %d vector registers used\n", id, (int)(sv.rax & 255), t->nfp);
  for (int k = 0; k < t->np; k++)
    for (int j = 0; j < t->p[k].np; j++) {
      struct piece *p = &t->p[k].p[j];
      u8 *src = p->r == 'g' ? (u8 *)&sv.gp[p->n] : p->r == 'f' ? sv.xmm[p->n] : (u8 *)sv.rsp + 8 + p->n;
      cmp(id, p->r == 'g' ? "argument (gp)" : p->r == 'f' ? "argument (fp)" : "argument (stack)", k, src, &t->p[k], p->o, p->s);
    }
  memset((u8 *)sv.rsp + 8, 0xa5, t->stk);
  junkf(&rs, sizeof rs);
  rs.x87 = t->ret == 'x';
  if (t->ret == 'x') memcpy(rs.ld, t->r.v, 10);
  if (t->ret == 'm') { memcpy((void *)sv.gp[0], t->r.v, t->r.sz); rs.rax = sv.gp[0]; }
  if (t->ret == 'r')
    for (int j = 0; j < t->r.np; j++) {
      struct piece *p = &t->r.p[j];
      memcpy(p->r == 'g' ? (u8 *)(p->n ? &rs.rdx : &rs.rax) : rs.xmm[p->n], t->r.v + p->o, p->s);
    }
}
void rec(int id, int k, const void *p) { struct tc *t = find(id); cmp(id, "parameter", k, p, &t->p[k], 0, t->p[k].sz); }
void recret(int id, const void *p) { struct tc *t = find(id); cmp(id, "result", 0, p, &t->r, 0, t->r.sz); }
static void preserved(int id, const char *what, int x) {
  for (int i = 0; i < 6; i++) if (out.cs[i] != 0x1111111122222222 + i) printf("%d %s: callee-saved register %d changed\n", id, what, i);
  if (out.rsp != in.rsp) printf("%d %s: stack pointer off by %ld\n", id, what, (long)(out.rsp - in.rsp));
  x87(id, what, out.env, x);
}
static void inject(struct tc *t, void *fn) {
  static u8 stk[8192]; static _Alignas(64) u8 buf[4096];
  junkf(&in, sizeof in); junkf(stk, sizeof stk); junkf(buf, sizeof buf);
  u64 al = in.rax & 255;
  in.rax = (in.rax & ~255ul) | (t->nfp + al % (9 - t->nfp));
  in.fn = (u64)fn; in.stk = (u64)stk; in.stksz = (t->stk + 63) / 64 * 64 + 64; in.x87 = t->ret == 'x';
  if (t->ret == 'm') in.gp[0] = (u64)buf;
  for (int k = 0; k < t->np; k++)
    for (int j = 0; j < t->p[k].np; j++) {
      struct piece *p = &t->p[k].p[j];
      u8 *d = p->r == 'g' ? (u8 *)&in.gp[p->n] : p->r == 'f' ? in.xmm[p->n] : stk + p->n;
      memcpy(d, t->p[k].v + p->o, p->s);
    }
  do_inject();
  preserved(t->id, "return", t->ret == 'x');
  if (t->ret == 'm') { if (out.rax != (u64)buf) printf("%d return: rax is not the result's address\n", t->id); cmp(t->id, "returned", 0, buf, &t->r, 0, t->r.sz); }
  if (t->ret == 'x') cmp(t->id, "returned", 0, out.ld, &t->r, 0, 10);
  if (t->ret == 'r')
    for (int j = 0; j < t->r.np; j++) {
      struct piece *p = &t->r.p[j];
      cmp(t->id, p->r == 'g' ? "returned (gp)" : "returned (fp)", 0, p->r == 'g' ? (u8 *)(p->n ? &out.rdx : &out.rax) : out.xmm[p->n], &t->r, p->o, p->s);
    }
}
static u8 *hex(FILE *f, int n) {
  char *s = malloc(2 * n + 2); u8 *r = calloc(n + 16, 1);
  if (fscanf(f, "%s", s) != 1) exit(3);
  for (int i = 0; i < n; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); r[i] = x; }
  free(s);
  return r;
}
static void val(FILE *f, struct val *v) {
  if (fscanf(f, "%d", &v->sz) != 1) exit(3);
  v->v = hex(f, v->sz); v->m = hex(f, v->sz);
  if (fscanf(f, "%d", &v->np) != 1) exit(3);
  for (int i = 0; i < v->np; i++) if (fscanf(f, " %c %d %d %d", &v->p[i].r, &v->p[i].n, &v->p[i].o, &v->p[i].s) != 4) exit(3);
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  setvbuf(stdout, NULL, _IOLBF, 1 << 16);
  if (fscanf(f, "%d", &ntc) != 1) return 3;
  tc = calloc(ntc, sizeof *tc);
  for (int i = 0; i < ntc; i++) {
    struct tc *t = tc + i;
    if (fscanf(f, "%d %d %d %c %d %d %d", &t->id, &t->np, &t->var, &t->ret, &t->stk, &t->nfp, &t->stal) != 7) return 3;
    t->p = calloc(t->np + 1, sizeof *t->p);
    for (int k = 0; k < t->np; k++) val(f, t->p + k);
    if (t->ret != 'n') val(f, &t->r);
  }
  for (int i = 0; i < ntc; i++) {
    inject(tc + i, gs[i]);
    junkf(&in, sizeof in);
    in.fn = (u64)calls[i]; in.stksz = 0; in.x87 = 0;
    do_inject();
    preserved(tc[i].id, "caller", 0);
  }
  printf("end\n");
  return 0;
}
