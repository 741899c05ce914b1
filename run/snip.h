// statement templates for the programs of P20: each computes v from a, b and f; $ is replaced by a number
static const struct { const char *name; bool fl; const char *text; } SNIP[] = {
	{"bf1", false, R"~(struct { unsigned long p:32, q:32; long r:10, s:54; } x = { a, b, a, b };
x.q = a; x.s += b; x.r ^= 3; x.p++; --x.q;
v = (long)x.p + (long)x.q * 3 + (long)x.r * 5 + (long)x.s;)~"},
	{"bf2", false, R"~(struct { unsigned char z; unsigned p:4, q:4; int :0; int r:31; unsigned s:1; } x = { 1, a, b };
x.r = a; x.s = b; x.q <<= 1; x.r -= b; x.s = !x.s;
v = x.z + x.p * 3 + x.q * 7 + (long)x.r * 11 + x.s * 13;)~"},
	{"bf3", false, R"~(static struct { long p:64; unsigned long q:63, r:1; } x = { -5, ~0UL, 1 };
x.p += a; x.q -= b; x.r += (unsigned)b & 1;
v = x.p ^ (long)x.q * 3 ^ (long)x.r;
x.p = -5; x.q = ~0UL; x.r = 1;)~"},
	{"bf4", false, R"~(struct { signed char p:5; unsigned char q:3; short r:9; unsigned short s:7; _Bool t:1; } x = { 0 };
x.p = a; x.q = b; x.r = a + b; x.s = a - b; x.t = a & 4;
x.p--; x.q++; x.r /= 3; x.s %= 5; x.t ^= 1;
v = x.p + x.q * 31L + x.r * 1009L + x.s * 7L + x.t;
v += (x.p < 0) * 2 + (x.s > x.q) * 4 + (-x.q < 0) * 8;)~"},
	{"bf5", false, R"~(struct { int n; struct { unsigned p:3, q:29; } y[3]; } x = { 2, { { 1, 2 }, { 3, 4 } } };
struct { unsigned p:3, q:29; } *z;
int i = (unsigned)a % 3;
x.y[i].q = b; x.y[i].p = a;
v = x.y[0].p + x.y[1].q * 5L + x.y[2].q * 7L + x.y[2].p;
(void)z;)~"},
	{"enu", false, R"~(enum e { E0 = -2, E1, E2 = 40, E3, E4 = E2 * 2 + 1 } x = (unsigned)a % 2 ? E1 : E4;
switch(x){ case E0: v = 1; break; case E1: v = 2; break; case E4: v = E3; break; default: v = 9; }
v += sizeof(x) + (E0 < 0) + (x > E2);)~"},
	{"sw1", false, R"~(int i;
for(i = 0; i < 8; i++) switch((a >> i) & 7){
	case 0: v += 3; break;
	case 2 ... 4: v ^= i;
	default: v *= 5; continue;
	case 7: v--;
	case 1: v += b; if(v & 1) break; v += 2;
})~"},
	{"sw2", false, R"~(switch((unsigned char)a){ case 'a' ... 'z': v = 1; break; case 200 ... 255: v = 2; break; case 0 ... 9: v = 3; }
switch((signed char)b){ case -128 ... -1: v += 10; break; case 0: v += 20; break; case 1 ... 126: v += 30; break; case 127: v += 40; })~"},
	{"sw3", false, R"~(switch((unsigned)a){ case 0xffffffffu: v = 1; break; case 0x80000000u: v = 2; break; case 0 ... 0x7fffffff: v = 3; break; default: v = 4; }
switch(b){ case -1L: v += 10; break; case 0x7fffffffffffffffL: v += 20; break; case 1L << 40 ... 1L << 50: v += 30; break; default: v += 40; })~"},
	{"duff", false, R"~(int n = (unsigned)a % 13 + 1, k = (n + 3) / 4;
switch(n % 4){ case 0: do { v += b; case 3: v ^= 5; case 2: v += n; case 1: v = v * 3 + 1; } while(--k > 0); })~"},
	{"goto1", false, R"~(int i = 0;
again$:
if(i++ < (a & 7)){ v += i; if(v & 4) goto again$; v ^= b; goto again$; }
{ void *t[] = { &&l0$, &&l1$, &&l2$ }; goto *t[(unsigned)b % 3]; }
l0$: v += 1;
l1$: v += 2;
l2$: v += 4;)~"},
	{"lp1", false, R"~(int i, j;
for(i = 0; i < 5; i++){ for(j = 4; ; j--){ if(j < i) break; if((a >> j) & 1) continue; v += i * j; } if(v > 40) break; }
do { v--; if(v & 1) continue; v -= 2; } while(v > 30);
while(v-- > 25) ;)~"},
	{"md1", false, R"~(int x[3][4] = { { 1, 2 }, [2] = { [1] = 7, 8 } }, (*p)[4] = x, *q = x[1];
p++; (*p)[2] = a; q[3] = b; p[1][0] = 5;
v = x[1][2] + x[1][3] * 3L + x[2][0] + x[2][1] + x[2][2] + (p - x) * 100 + (&x[2][3] - &x[0][1]) + sizeof(x) + sizeof *p;)~"},
	{"md2", false, R"~(static short x[2][3][2] = { { { 1, 2 }, { 3 } }, { [1] = { 4, 5 }, 6 } };
int i = (unsigned)a % 2, j = (unsigned)b % 3;
v = x[i][j][1] * 3L + x[1][j][i] + *(*(*(x + i) + j) + 1) + (&x[1] - &x[0]);
x[i][j][0] += 3; v += x[i][j][0]--; x[i][j][0] -= 2;)~"},
	{"ptr1", false, R"~(char buf[24], *p = buf, *q; long *lp = (long *)0; int i;
for(i = 0; i < 24; i++) *p++ = a + i;
q = p - 5; *--q = b; v = q[-1] + *q-- + *q + q[2] + (p - q) + (p > q) + (q >= buf) + (lp == 0) + !p + !!q;
v += ((unsigned char *)q)[1] + (q != p) + (p && lp);)~"},
	{"ptr2", false, R"~(struct s { char c; struct s *n; short x[3]; } x[3] = { { 1, &x[1], { 2, 3 } }, { 4, x + 2 }, { .x = { 9, 8, 7 } } }, *p = x;
p->n->n->c = a; (*p).n->x[2] = b; p->n->n->n = x;
for(int i = 0; i < 5; i++, p = p->n) v = v * 7 + p->c + p->x[i % 3];
v += (x[2].n - x) + (char *)&x[1].x[1] - (char *)x;)~"},
	{"fp1", false, R"~(long (*t[])(long, long) = { sn_add, &sn_add, *sn_add }, (**p)(long, long) = t + 1;
v = t[(unsigned)a % 3](a, b) + (*p)(b, 3) + (**p)(1, 2) + (p[1] == sn_add) + (*t == t[2]);)~"},
	{"fp2", false, R"~(typedef int cmp(int, int); cmp *h = a & 1 ? sn_lt : sn_gt, *g = h ?: sn_gt;
v = h(a, b) + g(b, a) * 2 + (h == sn_lt) * 4 + (h ? 8 : 0);)~"},
	{"str1", false, R"~(char x[] = "ab\0c\x41\101\n" "tail", y[4] = "wxyz", *z = "q\"\\\t" "r"; static const char w[] = { "st" };
v = sizeof x + sizeof w + sizeof "abc" + x[(unsigned)a % sizeof x] + y[b & 3] * 3 + z[a & 3] + w[2] + "0123456789"[(unsigned)b % 10];)~"},
	{"str2", false, R"~(int x[] = L"wide\x263a"; static int y[8] = L"st";
v = sizeof x / sizeof *x + x[4] + x[5] + y[1] + y[7] + L'\xff' + '\377' + '\0' + 'ab';)~"},
	{"un1", true, R"~(union u { int i; float g; unsigned char c[8]; long l; struct { short a, b; }; } x = { .l = a }, y;
x.c[2] ^= b; y = x; y.b = 3; v = x.l + y.i + y.a * 3 + y.c[7] + (sizeof x);)~"},
	{"an1", false, R"~(struct { int t; union { long l; struct { char c, d; short e; int g; }; }; int u[2]; } x = { 1, { .l = 0x1122334455667788 }, { 3 } }, y = { .d = 4, .u[1] = 6, .t = 2 };
x.c = a; x.e = b; y.u[0] = x.d; v = x.l + y.d * 3 + y.g + y.e + y.u[0] + y.u[1] + y.t + x.u[0];)~"},
	{"sa1", false, R"~(struct in { char c[5]; }; struct s { struct in x; long l; struct in y[2]; } p = { { "abcd" }, 7, { { { 1, 2 } }, { "xyz" } } }, q, r[2] = { [1] = p };
p.x.c[1] = a; q = p; q.y[0] = p.y[1]; p.y[1] = q.x; r[0] = q; *r = (struct s){ .l = b, .y[1].c[3] = 4 };
v = q.x.c[1] + q.y[0].c[0] * 3 + p.y[1].c[1] * 5 + r[1].l + r[0].y[1].c[3] + r[0].l + r[1].y[1].c[2] + (q.l == p.l);)~"},
	{"sr1", false, R"~(v = sn_mk(a, b).y + sn_mk(b, a).x * 3L; struct sn_pt p, *q = &p; p = sn_mk(a, 4); *q = sn_mk(q->y, q->x); v += p.x + p.y; sn_mk(1, 2);
v += (a & 1 ? p : sn_mk(5, 6)).x + (p = sn_mk(7, 8), p).y;)~"},
	{"bool1", true, R"~(_Bool x = a, y = &x, z = 0.25, w; char *n = 0; w = n; x += 3; y -= 1; z ^= 1; w--; 
v = x + y * 2 + z * 4 + w * 8 + (_Bool)(a & 256) * 16 + (_Bool)n * 32 + sizeof(_Bool) + (x << 5) + -x;
x = b & 128; v += x; y = !x; v += y++ * 64; v += y-- * 128 + y * 256;)~"},
	{"conv1", false, R"~(signed char sc = a; unsigned char uc = a; short ss = b; unsigned short us = b; int i = a * 3; unsigned u = b * 5;
v = (sc < uc) + (ss < us) * 2 + (i < u) * 4 + (sc < u) * 8 + (sc < a) * 16 + (u < a) * 32 + ((long)u < i) * 64 + (sc == (char)uc) * 128;
v += (unsigned long)sc + (unsigned)ss + (long)(unsigned)i + (unsigned char)~uc + (unsigned short)-us + (i >> 3) + (u >> 3) + (sc >> 1) + (uc >> 1) + (~us >> 2);)~"},
	{"conv2", false, R"~(v = (a ? -1 : 2u) + (b & 1 ? (char)a : (unsigned char)b) + (a & 2 ? -1 : 1L) + (a & 4 ? (short)b : (unsigned)a) + sizeof(1 ? 'c' : (char)1) + sizeof(1 ? 1 : 1L);
v += ((1 ? -1 : 0u) > 0) + ((a | 1 ? (signed char)-1 : (unsigned char)1) < 0) * 2;)~"},
	{"incdec", false, R"~(char c = a; unsigned char uc = b; short s = a; _Bool t = a; int x[3] = { a, b, 3 }, *p = x, i = 0; long l = b;
v = c++ + uc++ * 3 + s-- * 5; v += --c + ++uc * 7 + --s; v += *p++; v += (*p)++; v += ++*p; v += *--p; v += l++ * 2; v += --l; v += t++; v += x[i++]; v += x[++i]; v += i-- + c + uc + s + t + x[1] + l; v += i;)~"},
	{"casg", false, R"~(char c = a; unsigned char uc = b; short s = a; unsigned u = b; long l = a; int i = b;
c += a; c -= 3; c *= 5; c <<= 2; c >>= 1; uc /= 3; uc %= 11; uc |= 0x81; uc ^= a; uc >>= 2; s &= 0x5a5a; s += uc; u *= -3; u >>= 5; u += c; l -= u; l <<= 3; l ^= s; i /= 7; i %= 1000; i += (i -= 3) * 0;
v = c + uc * 3L + s * 5L + u * 7L + l + i;)~"},
	{"casg2", false, R"~(int x[4] = { 1, 2, 3, 4 }, *p = x, n = 0; long *q = (long *)x;
p += 2; *p -= a; p -= 1; *p++ *= b; x[n] += 3; n++; v = *p + x[0] + x[1] + n + (p - x); q += 1; *q ^= a; v += x[2] + x[3]; v <<= (unsigned)b % 9;)~"},
	{"comma", false, R"~(int i = 1, j; j = (i += 2, i * 3); v = (a, b, j); v += (i++, i); v *= (i == 4 ? (i--, 5) : 7); for(i = 0, j = 9; i < j; i++, j--) v += i * j; )~"},
	{"sizeof", false, R"~(char c = a; short s = b; long x[5]; struct { char c; long l; short s; } y; int n = (unsigned)a % 5 + 1; int z[n][3];
v = sizeof c + sizeof(c + s) * 2 + sizeof(c + 1L) * 3 + sizeof x + sizeof y + sizeof(x + 0) + sizeof *x + sizeof(char[7]) + sizeof "q" + _Alignof(long) + _Alignof(y) + sizeof(z) + sizeof z[0] + sizeof(int[n + 1]) + sizeof n++ + n;)~"},
	{"offs", false, R"~(struct s { char c; int i[3]; struct { short a; long b; } n; char t; };
v = __builtin_offsetof(struct s, i) + __builtin_offsetof(struct s, i[2]) * 3 + __builtin_offsetof(struct s, n.b) * 5 + sizeof(struct s) + (long)&((struct s *)0)->t;
v += __builtin_types_compatible_p(int, signed) + __builtin_constant_p(3) * 2 + __builtin_expect(a, 1) + __builtin_choose_expr(1, b, "x");)~"},
	{"gen", false, R"~(v = _Generic(a, int: 1, long: 2, default: 3) + _Generic((char)a, char: 10, int: 20) + _Generic(&v, long *: 100, default: 200) + _Generic(1u + 1, unsigned: b, default: a);)~"},
	{"va", true, R"~(v = sn_sum(3, a, b, a + b) + sn_sum(0) * 2 + sn_sum(9, 1L, 2L, 3L, 4L, 5L, 6L, 7L, a, b) + sn_vsum("ildc", (int)a, b, 2.5, (char)a) + sn_vsum("dddddddddd", 1., 2., 3., 4., 5., 6., 7., 8., 9., 10.) + sn_vsum("ididididididid", 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6, 6.5, (int)b, 7.5);)~"},
	{"cpl", false, R"~(struct sn_pt *p = &(struct sn_pt){ a, b }, q = (struct sn_pt){ .y = 3 }; int *r = (int[]){ 1, a, [4] = b }; v = p->x + p->y * 3 + q.x + q.y + r[1] + r[3] + r[4] + (int){ 7 } + ((struct sn_pt){ 4, 5 }).y + sizeof((int[]){ 1, 2, 3 });
p->x = 9; r[3] = 6; v += p->x + r[3];
for(int i = 0; i < 3; i++){ int *s = (int[2]){ i }; v += s[0] * 2 + s[1]; s[1] = 5; })~"},
	{"sta", false, R"~(static long cnt = 5; static int *pp = &sn_ga[2]; static long *lp = &cnt; static char *nm[] = { "x", "yz" + 1, 0 }; static long (*fn)(long, long) = sn_add; static struct { int *p; char q[3]; } st[] = { { sn_ga + 1, "ab" }, { &sn_ga[3] - 1, { 'c' } } };
cnt += a & 3; v = cnt + *pp + (lp == &cnt) + nm[1][0] + !nm[2] + fn(2, 3) + *st[0].p + *st[1].p + st[0].q[1] + st[1].q[0] + sizeof st; cnt = 5;)~"},
	{"sta2", true, R"~(static const unsigned char x[] = { [3] = 7, 9, [1] = 200, [10 ... 12] = 5 }; static struct { unsigned a:5; int b:7; unsigned long c:40; } y = { 17, -9, 0xabcdef0123 }; static float fl = 1.5f; static double db = -2.25; static _Bool bl = 7; static unsigned short us = -1; static long ll = -1 ? 1L << 40 : 0;
v = x[(unsigned)a % sizeof x] + x[12] + y.a + y.b * 3 + (long)y.c + (long)(fl * 4) + (long)(db * 8) + bl + us + ll;)~"},
	{"tern", false, R"~(int *p = a & 1 ? 0 : sn_ga, *q = p ?: sn_ga + 1; const char *c = b & 1 ? "one" : (void *)0; v = *q + (p ? *p : 7) + (c ? c[0] : 1) + (a ?: b) + (a & 8 ? b & 8 ? 1 : 2 : b & 16 ? 3 : 4) + (a > b ? a : b) - (a < b ? a : b);
a & 1 ? v++ : v--; v += (a & 2 ? sn_ga : &sn_ga[2])[1];)~"},
	{"logic", false, R"~(int n = 0; v = (a && b); v += (a || n++) * 2 + (!a || !b) * 4; v += (n || (n += 3)) * 8; v += (a & 1 && n++ && b & 1) * 16; v += n * 32 + !!(a & 6) + !(b > 3 && b < 90) + (a == b) + (a != b) * 64 + -(a >= b); if(!(a & 3 || b & 3) && n) v = -v; while(n-- && !(n & 8)) v += n;)~"},
	{"shft", false, R"~(int i = a; unsigned u = b; long l = a; unsigned long ul = b; char c = a; int n = (unsigned)b & 31, m = (unsigned long)a & 63;
v = (i >> n) + (u >> n) * 3L + (l >> m) + (ul >> m) + ((unsigned)i << n) + (ul << m) + (c >> 2) + (1 << (n & 15)) + (1UL << m) + (u << 0) + (i >> 31) + (u >> 31) + (l >> 63) + (ul >> 63) + ((unsigned char)c >> 1) + (u >> 7 << 7) + ((short)i << 3);)~"},
	{"divs", false, R"~(int i = a; unsigned u = b; long l = a; unsigned long ul = b; signed char c = b; unsigned short s = a;
v = i / 8 + i % 8 + u / 8 + u % 8 * 3L + l / 16 + l % 16 + ul / 32 + ul % 32 + i / -4 + i % -4 + c / 2 + c % 2 + s / 7 + s % 7 + l / -1024 + i / 1 + i / -3 + i % 10 + u / 10 + ul / 1000 % 7 + 100 / (i | 1) + 1000u / (u | 1) + 77 % (c | 1) + l / (c | 1) + u / (s | 1u);)~"},
	{"cmp", false, R"~(int i = a; unsigned u = b; long l = b; unsigned char c = a; signed char sc = b;
v = (i < 0) + (u < 5) * 2 + (l >= -3) * 4 + (c > 200) * 8 + (sc <= -1) * 16 + (5 > i) * 32 + (0u > u) * 64 + (-1 < sc) * 128 + (i == -1) * 256 + (u == -1) * 512 + (c == -1) * 1024 + ((c - 5) < 0) * 2048 + ((u - 5) > 0) * 4096 + (0x80000000 > i) * 8192 + (i > -2147483647 - 1) * 16384 + (l > 0x7fffffff) * 32768 + (u > 0x7fffffff) * 65536 + (l < 0xffffffff) * 131072;)~"},
	{"bits", false, R"~(unsigned u = a; long l = b; unsigned char c = a; v = (~u & 0xff) + (u ^ ~l) + (c & ~0xf) + (-u & 7) + (l | -1) + (l & 0xffffffff) + (l & -1) + (u & -1) + (u | 0) + (l ^ 0) + (c & 0) + (u & 0x80000000) + (l & 0x7fffffffffffffff) + ((u & 12) == 8) + (-(long)c) + (+c) + (~c) + (l * 0 + 3) + (0 - l) + (l - 0) + (1 * u);)~"},
	{"mulk", false, R"~(int i = a; unsigned u = b; long l = a; unsigned long ul = b; v = i * 8 + u * 16 + l * -2 + ul * 3 + 5 * i + i * 1 + 4 * u * 2 + l * 1024 + ul * 0x100000000 + i * -1 + (unsigned char)i * 257 + (short)u * 65 + u * u + l * l + i * u;)~"},
	{"fl1", true, R"~(double x = f, y = b & 1023; float g = f, h = 1.5f; v = (x < y) + (x > y) * 2 + (x <= y) * 4 + (x >= y) * 8 + (x == y) * 16 + (x != y) * 32 + (g < h) * 64 + !x * 128 + (x && g) * 256 + (g == f) * 512 + (x ? 1024 : 0) + (-x < 0) * 2048; if(y) v += 4096; while(g > 100) g /= 4; v += g != g;)~"},
	{"fl2", true, R"~(double n = 0.0 / (f - f), i = 1 / (f * 0), z = -0.0; v = (n == n) + (n != n) * 2 + (n < 1) * 4 + (n > 1) * 8 + (n <= n) * 16 + (n >= n) * 32 + !n * 64 + !(n < 1) * 128 + (i > 1e300) * 512 + (z == 0) * 1024 + (1 / z < 0) * 2048 + (n || 0) * 4096 + (n && 1) * 8192; if(n < i) v++; if(!(n >= i)) v += 3; v += n != n ? 5 : 9; while(n == n){ v++; break; } do v++; while(n > 3);)~"},
	{"fl3", true, R"~(float g = a & 0xffff; double d = (b & 0xfffff) - 70000; long l = d; int i = d / 3; unsigned char c = g > 255 ? 3 : g; short s = d / 100; g += 0.5f; d *= -g; g -= d / 65536; d /= 3; i += d < 1e6 && d > -1e6 ? d : 2; l -= (g > 0 ? g : -g) < 1e5 ? g : 1; v = l + i + c + s; d = a & 0xfff; d++; --d; g = d--; v += (int)d + (int)g; v += (int)(float)(double)(a & 0xffffff) + (long)(double)(b & 0xffffffffff);)~"},
	{"fl4", true, R"~(double x[3] = { 1.5, [2] = 0x1.8p3 }, *p = x + 1; float y[] = { 1, 2.5f, 1e3 }; *p = f; p[1] += y[2]; v = (long)(x[2] + y[1] + x[0] * 4) + (p - x) + sizeof y; y[0] = a & 255; y[0] += 1; v += y[0]; struct { float g; double h; char c; } s = { 1, 2, 3 }; s.g += s.h * s.c; s.h = s.g; s.c *= s.h; v += s.c + (int)(s.h + s.g);)~"},
	{"vla", false, R"~(int n = (unsigned)a % 6 + 2, m = (unsigned)b % 4 + 1, i, j; int x[n][m], (*p)[m] = x; short y[n]; for(i = 0; i < n; i++){ y[i] = a + i; for(j = 0; j < m; j++) x[i][j] = i * 10 + j; } p += n - 1; v = (*p)[m - 1] + x[1][0] * 3 + y[n - 1] + sizeof x + sizeof y + (p - x) * 1000 + sizeof *p + (&x[1][0] - &x[0][0]) + sizeof(x[0]) / sizeof(int); p--; v += p[1][0];)~"},
	{"stex", false, R"~(v = ({ int t = a; t *= 2; t; }) + ({ long q = b; if(q & 1) q = -q; q; }) + ({ struct sn_pt p = { a, 2 }; p; }).y + ({ int k; for(k = 0; k < (a & 7); k++) ; k; }); v += ({ switch(a & 3){ case 1: v++; break; default: v--; } v & 1; });)~"},
	{"tyof", true, R"~(__typeof__(a) x = b; __typeof__(x + 1.0) y = 2; __typeof__(int[3]) z = { 1, 2, 3 }; const __typeof__(*z) w = z[2]; typedef __typeof__(&z[0]) ip; ip p = z + 1; __auto_type q = a + 1; v = x + (long)y + sizeof z + w + *p + q;)~"},
	{"scop", false, R"~(int x = a; { long x = b; v += x; { char x = 3; v += x; } { struct x { int x; } x = { 5 }; v += x.x; } } v += x; for(int x = 0; x < 3; x++){ int v2 = x; v += v2; } { extern int sn_ga[]; enum { x = 4 }; v += sn_ga[1] + x; } { typedef short x; v += sizeof(x); })~"},
	{"rec", false, R"~(v = sn_fib((unsigned)a % 9) + sn_ack(2, (unsigned)b % 3) + sn_ev((unsigned)a % 11);)~"},
	{"fam", false, R"~(struct fa { short n; int d[]; }; static union { long al[4]; struct fa f; } u; struct fa *p = &u.f; p->n = 3; p->d[0] = a; p->d[2] = b; v = p->d[0] + p->d[2] + sizeof(struct fa) + p->n;)~"},
	{"cnst", true, R"~(v = (a ^ a) + (int)3.75 + (char)300 + (unsigned char)-1 + (short)70000 + (-7 / 2) + (-7 % 3) + (7u - 8 > 0) + (-1 >> 1) + (1 << 4 | 3) + (5 & 6 ^ 3) + !0 + ~5 + sizeof(int) * -1 / 4 % 7 + (0x7fffffff + 0u) + (2 > 1 > 0) + ('a' - 'A') + (-1 < 0u) + (1 ? 2 : 3) + (4294967295 == -1) + (-1L == 4294967295u) + 0b101 + 010 + 0xfUL + 1e2 + (long)-2.5 + (_Bool)0.1 + (0 && 1 / 1) + (unsigned short)0x12345;)~"},
	{"kr", true, R"~(v = sn_kr1(a, b, 'x') + sn_kr2((float)1.5f, (char)a, (short)b) * 3;)~"},
	{"rets", true, R"~(v = sn_rc(a) + sn_ruc(a) * 3 + sn_rs(b) + sn_rus(b) * 5 + sn_rb(a) * 7 + sn_ru(b) + (long)(sn_rf(a & 1023) * 4) + (sn_rc(b) < 0) * 100 + (sn_ruc(a) > 127) * 1000 + (sn_ru(a) > 5u) * 10000 + -sn_ruc(b) + ~sn_rs(a) + !sn_rb(b) + (sn_rf(1) == 0.5f);)~"},
	{"many", true, R"~(v = sn_many(a, 2, (char)b, (short)a, 5, (unsigned char)b, 7, (signed char)a, (unsigned short)b, 10, (_Bool)(a & 4), 12) + sn_manyf(1, 2.5f, a & 63, 4, 5.5, (float)(b & 31), 7, 8, 9.25f, 10, a, (char)b) * 3;)~"},
	{"st1", false, R"~(struct sn_big x = sn_mkbig(a), y; y = x; y.c[36] = b; y.c[0]++; struct sn_big *p = &y; x.c[5] = p->c[36]; *p = *&x; v = y.c[5] + x.c[0] * 3 + y.c[36] * 5 + sn_mkbig(b).c[7] + sizeof y; struct { char t; struct sn_big z[2]; } w = { 1, { x, y } }; w.z[0] = w.z[1]; w.z[1].c[5]--; v += w.z[0].c[5] * 7 + w.z[1].c[5];)~"},
	{"st2", true, R"~(struct sn_di p = sn_mkdi(f, a); struct sn_ff q = sn_mkff(b & 255), *r = &q; struct sn_ld t = sn_mkld(a, b & 1023); v = p.i + q.x * 2 + r->y * 4 + t.l + (long)t.d + sn_mkdi(1.5, b).i + (long)sn_mkff(3).y + (p.d == f) + sn_mkld(1, 2).l; q = sn_mkff(7); v += q.x; p = (a & 1 ? sn_mkdi(2, 3) : p); v += p.i;)~"},
	{"pack", false, R"~(struct __attribute__((packed)) s { char c; int i; short s; long l; } x = { 1, 2, 3, 4 }, y[3] = { [1] = { 5, 6, 7, 8 } }; x.i = a; x.l = b; y[2] = x; y[2].s--; v = sizeof x + x.i + y[2].l + y[1].i + y[2].s + (char *)&x.l - (char *)&x;)~"},
	{"algn", false, R"~(struct { char c; _Alignas(16) int i; char d; } x = { 1, 2, 3 }; _Alignas(16) char y[5] = { 1 }; long z __attribute__((aligned(16))) = a; v = sizeof x + ((unsigned long)&x.i & 15) + ((unsigned long)y & 15) + ((unsigned long)&z & 15) + z + x.d + _Alignof(x);)~"},
	{"vla2", false, R"~(int n = (unsigned)a % 5 + 1, i; typedef short row[n]; row x[3]; n = 9; v = sizeof(row) + sizeof x; for(i = 0; i < 3; i++) x[i][0] = i + b; row *p = x; p += 2; p--; ++p; v += p[0][0] + p[-1][0] * 3 + (p - x) + (char *)(p + 1) - (char *)p; for(i = 0; i < 4; i++){ char q[i + 3]; q[i + 2] = b + i; q[0] = i; v += q[i + 2] + sizeof q; if(i == (a & 3)) continue; v += q[0]; })~"},
	{"vla3", false, R"~(int x[3][5]; int i, j; for(i = 0; i < 3; i++) for(j = 0; j < 5; j++) x[i][j] = i * 7 + j + (a & 15); v = sn_vsum2(3, 5, x) + sn_vsum2(2, 5, x + 1) * 3; { int n = 4; again$:; long y[n]; y[n - 1] = n + b; v += y[n - 1]; if(--n > 1) goto again$; })~"},
	{"cfl", true, R"~(int i = a & 0xffff; char c = a & 63; unsigned u = b & 255; long l = b & 0xffffff; _Bool t = a; float g = 2.5f; double d = f > -1e9 && f < 1e9 ? f : 3; i *= 1.5; c += 0.75; c *= 1.25f; l /= 2.5; t *= 0.5; g += i; g -= c; d *= l; d += u; g /= 3; v = i + c + u + l + t + (long)g + (long)(d / 65536); i += c += 2; l -= i++ * 2.0; v += i + l + c; d = i = 7.9; v += d == 7; g = d = 1 / 3.0; v += g == d; v += (g = 0.1) == 0.1;)~"},
	{"ul2d", true, R"~(unsigned long ul = a, ul2; double d = ul; float g = (unsigned long)b; ul2 = d < 1.8e19 ? d : 5; v = ul2 ^ (unsigned long)(g < 1e19f ? g : 7); v += (d > 9e18) + (g > 9e18f) * 2; d = (long)a; v += (long)(d > -9e18 && d < 9e18 ? d : 3); v += (unsigned char)(a & 255 ? (double)(a & 255) : 2) + (unsigned short)(float)(b & 0xffff);)~"},
	{"idx", false, R"~(int x[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }, *p = x + 4; unsigned char uc = a & 3; signed char sc = -(b & 3); short s = a & 7; unsigned u = b & 3; long l = -(a & 3); v = x[uc] + p[sc] * 3 + s[x] + p[u] + p[l] + *(p - u) + *(sc + p) + p[-1] + (&p[2])[-3] + *(p + uc - 1) + (p + u)[-(int)u] + x[(uc + 1) * 2 - 1] + (-1)[p]; p += sc; p -= sc; p += u; v += p - x; p = &x[u]; v += *p++ + p[0]; v += (char *)(p + 1) - (char *)p;)~"},
	{"idx2", false, R"~(static int x[7000]; static char y[3][4000]; int i = (unsigned)a % 7000; long j = (unsigned)b % 4000; x[i] = 5; y[2][j] = 6; y[1][3999]++; v = x[i] + y[2][j] + y[1][3999] + (x + 6999 - &x[i]) + (&y[2][j] - &y[0][0]); x[i] = 0; y[2][j] = 0; y[1][3999] = 0;)~"},
	{"reg", false, R"~(long c = a + 1, d = b - 1, e = a ^ b, g = a & b, h = a | b; v = ((c * d + e) * (g - h) + (c - (d + (e * (g + (h * (c + (d - (e ^ (g | (h & c)))))))))) - ((c + d) * (e + g) + (h - c) * (d - e)) * ((g ^ h) + (c & d))) ^ (((c << 1) + (d >> 2)) * ((e << 3) - (g >> 1)) + (((unsigned long)h >> 5) / ((c & 7) + 1)) % ((d & 15) + 3)) + sn_add(sn_add(c, d) * sn_add(e, g), sn_add(h, c) - sn_add(d, e)) * (c + sn_add(d, sn_add(e, sn_add(g, h)))) / ((e & 3) + 2);)~"},
	{"regf", true, R"~(double c = (a & 255) + 1, d = (b & 255) - 9, e = c * 0.5, g = d * 0.25, h = c - d; v = (long)(((c * d + e) * (g - h) + (c - (d + (e * (g + (h * (c + (d - (e * (g + (h - c)))))))))) - ((c + d) * (e + g) + (h - c) * (d - e)) * ((g - h) + (c + d))) / 16 + sn_rf(3) * ((c + sn_rf(5)) * (d - sn_rf(7)) + (sn_rf(2) + e) * (g + (h + sn_rf(9)))));)~"},
	{"strs", false, R"~(char buf[32]; const char *s = "hello" " " "world", *t = s; char *d = buf; while((*d++ = *t++)) ; for(d = buf; *d; d++) if(*d >= 'a' && *d <= 'z') *d -= 'a' - 'A'; else *d = '0' + (a & 7); v = d - buf; for(t = buf; *t; ) v = v * 31 + *t++; v += __builtin_strlen("hello") + (s[11] == 0) + "abc"[b & 1]; char two[2][6] = { "ab", "cdefg" }, (*r)[6] = two; r++; v += (*r)[4] + two[0][2] + sizeof two; static const char *const tab[] = { "a", [3] = "d", "e" }; v += !tab[1] + *tab[4] + sizeof tab;)~"},
	{"sort", false, R"~(int x[8] = { 5, a & 255, 3, b & 255, 9, 1, a & 15, b & 7 }, i, j, (*cmp)(int, int) = a & 1 ? sn_lt : sn_gt; for(i = 0; i < 8; i++) for(j = 7; j > i; j--) if(cmp(x[j], x[j - 1])){ int t = x[j]; x[j] = x[j - 1], x[j - 1] = t; } for(i = 0; i < 8; i++) v = v * 5 + x[i];)~"},
	{"list", false, R"~(struct nd { struct nd *n, *p; int v; } x[6], *h = 0, *q; int i; for(i = 0; i < 6; i++){ q = &x[(i * 5 + (a & 3)) % 6]; q->v = i * 3 + (b & 7); q->n = h; q->p = 0; if(h) h->p = q; h = q; } if(h->n->p){ q = h->n; q->p->n = q->n; if(q->n) q->n->p = q->p; } for(q = h; q; q = q->n){ v = v * 7 + q->v; if(q->p) v += q->p->n == q; })~"},
	{"stac", false, R"~(static int n; static int calls[3]; static unsigned char *last; calls[n % 3]++; last = (unsigned char *)&calls[n++ % 3]; v = n + calls[0] * 3 + calls[1] * 5 + calls[2] * 7 + *last; if(n > 20){ n = 0; calls[0] = calls[1] = calls[2] = 0; })~"},
	{"sini", true, R"~(static int s1 = (int)(char)300 + (short)70000, s2 = 7 / 2 * 2 + 7 % 4 - (1 << 3) + (9 > 3), *s3 = &sn_ga[3] - 2, *s4 = (int *)((char *)sn_ga + 8), s5 = sizeof(sn_ga) / sizeof *sn_ga; static unsigned char s6 = -1, s7 = 1.9; static long s8 = (unsigned)-1, s9 = -1u + 1, s10 = 1L << 40 | 0xf, s11 = 'a' ? 3 : 4; static double s12 = 1 / 4., s13 = 3, s14 = -(2 + 0.5f); static float s15 = 0.1, s16 = 16777217; static _Bool s17 = 0.5, s18 = 0x100, s19 = !1; static char s20[][4] = { "abc", { 'd' }, "ef" }; static int *s21[2] = { sn_ga, &sn_ga[1] + 1 }; static long s22 = (long)(signed char)0x80 + (unsigned short)-2 + ~0u + -(unsigned char)1;
v = s1 + s2 + *s3 + *s4 + s5 + s6 + s7 + s8 + s9 + s10 + s11 + (long)(s12 * 8) + (long)s13 + (long)(s14 * 4) + (s15 == 0.1f) + (long)s16 + s17 * 2 + s18 * 4 + s19 + s20[0][2] + s20[1][0] + s20[2][1] + sizeof s20 + *s21[1] + s22;)~"},
	{"lits", true, R"~(v = (0xffffffff > 0) + sizeof(0xffffffff) * 2 + sizeof(2147483648) * 3 + sizeof(2147483647) + sizeof(4294967296u) + sizeof 1ll + sizeof 'a' + sizeof 1.0f + sizeof 1.0 + (0x80000000 == 2147483648) + (-0x80000000 > 0) * 5 + (-2147483648 < 0) * 7 + (0xffffffffffffffff == -1) * 9 + ('\x80' < 0) * 11 + '\\' + '\'' + '\"' + '\a' + '\0' + '\033' + '\x7f' + (1e3 == 1000) + (0x10p-2 == 4) + (.5e1 == 5.) + 1u - 2 + 0777 + 0b1010 + (10 / 3 * 3.0 == 9) + (1 / 2 + 1 / 2. == 0.5);)~"},
	{"ivol", false, R"~(volatile int x = a; volatile char y = b; volatile struct { int i:5; int j; } z = { 3, 4 }; volatile int *p = &x; x += 3; y++; z.i = a; z.j -= *p; *p = x * 2; v = x + y + z.i + z.j + (x, 5) + (p == &x) + !y;)~"},
	{"incx", false, R"~(struct { int n; unsigned char c; short t[2]; } x = { a, b, { a, b } }, *p = &x; v = p->n++; v += --p->c; v += p->t[1]--; v += ++*p->t; v += x.n--; v += (*p).c++; (&x)->n += 2; v = v * 3 + x.n + x.c + x.t[0] + x.t[1]; char *s = (char *)&x; s += 2; v += *s++; v += ++*s; v += s-- - (char *)p;)~"},
	{"voide", false, R"~(int n = 0; (void)(n = a & 7); a & 1 ? (void)n++ : (void)(n += 2); (void)0, n++; b & 1 ? sn_vf(&n, 3) : sn_vf(&n, 4); if(a & 2) sn_vf(&n, 1); else (void)n; sn_vf(&n, 2); v = n; ; {} do ; while(0); for(;;){ if(n++ > 20) break; } v += n;)~"},
	{"ucmp", false, R"~(unsigned long ul = b; long l = a; unsigned char c = b; unsigned short s = a; unsigned u = a; v = (l < (long)u) + (ul > l) * 2 + (c - s < 0) * 4 + (u - 1 > u) * 8 + (s << 16 < 0) * 16 + (ul - 1 >= ul) * 32 + ((int)u < (int)c) * 64 + (l < c) * 128 + (-1 > c) * 256 + (-1L > u) * 512 + (-1 > ul) * 1024 + ((short)s < s) * 2048 + (~c < 0) * 4096 + (u >> 31 == (int)u < 0) * 8192; while(ul > 10) ul /= 7; v += ul; for(c = 250; c >= 250; c++) v++; for(u = 3; u-- > 0; ) v += u;)~"},
	{"swx", false, R"~(struct { unsigned f:3; int g:4; } x = { a, b }; switch(x.f){ case 1: case 2: v = 1; break; case 7: v = 2; } switch(x.g){ case -8: v += 10; break; case -7 ... -1: v += 20; break; case 0 ... 6: v += 30; } switch((_Bool)(a & 4)){ case 0: v += 100; break; case 1: v += 200; } switch(a & 15 ? 'a' + (b & 3) : 'z'){ default: v += 1000; if(a & 32){ case 'b': v += 2000; break; } case 'c': v += 3000; } switch(a) v++; switch(b & 3){ int q; case 2: q = 3; v += q; break; case 3: q = 4; v -= q; })~"},
	{"stex2", false, R"~(v += ({ int t[3] = { 1, 2, a & 7 }; t[2]; }) + ({ struct sn_big q = sn_mkbig(b); q; }).c[3] + ({ v; }) + *({ &sn_ga[b & 3]; }); v += sn_add(({ long q = 3; q += a; q; }), ({ 4; })) + (a & 1 ? ({ 5; }) : ({ 6L; }));)~"},
	{"lgoto", false, R"~(int i = 0, n = a & 7; void *p = n > 3 ? &&x1$ : &&x2$; static void *const tab[] = { &&x3$, &&x1$, &&x2$ }; x0$: if(++i > 9) goto x4$; { int k = i * 2; if(k & 4) goto *p; v += k; } goto *tab[i % 3]; x1$: v += 3; goto x0$; x2$: v ^= 5; goto x0$; x3$: v *= 3; while(1){ for(;;) goto x5$; } x5$: p = &&x1$; goto x0$; x4$: v += i;)~"},
	{"enm", false, R"~(enum { A = 3, B, C = A * 4, D = -1, E = 'x', G = (int)sizeof(long), H = C > 5 ? 7 : 8, I = 1 << 4 | 2 }; enum sn_big { X = 0x7fffffff, Y = -0x7fffffff - 1 } e = X; int t[H] = { [B] = 5, [A] = 6 }; v = A + B * 2 + C * 3 + D + E + G + H + I + t[4] + t[3] + sizeof t + (e == X) + (Y < X) + (D < 0); e = a & 1 ? Y : X; v += e; e++; v ^= e; enum sn_big *p = &e; *p = D; v += e;)~"},
	{"tydef", false, R"~(typedef int arr[3]; typedef arr *parr; typedef long fn(long, long); typedef struct { fn *f; arr x; } S; fn *g = sn_add; arr y = { 1, 2, 3 }, z[2] = { { 4 }, { 5, 6 } }; parr p = z; S s = { sn_add, { 7, 8, 9 } }, *q = &s; const arr w = { 1, a, 3 }; v = g(a, b) + s.f(3, 4) + q->f(a, 2) + (*q->f)(1, b) + y[2] + p[1][1] + (*p)[0] + q->x[2] + w[1] + sizeof(arr) + sizeof(S); { int arr = 3; v += arr; } )~"},
	{"fopt", true, R"~(double d = f; float g = d; v = (d + 0 == d) + (d * 1 == d) * 2 + (g + 0.0f == g) * 4 + (0 * a) + (a * 0 + b * 1) + (a - a) + (b / 1) + (a | 0) + (a & -1) + (d - d == 0) * 8 + ((float)d == g) * 16 + (-(-d) == d) * 32 + (d / 2 * 2 == d) * 64 + (1.0 / 3 * 3 == 1.0) * 128 + (0.1f + 0.2f == 0.3f) * 256 + (0.1 + 0.2 == 0.3) * 512 + (1e308 * 10 > 1e308) * 1024 + ((int)1e9 == 1000000000) * 2048 + (16777216.0f + 1 == 16777216.0f) * 4096;)~"},
	{"zero", false, R"~(struct { struct { int x[5]; char c; } p; union { int i; char c[9]; } u[2]; long l; } x = { { { 1 } } }, y = { .u[1] = { 5 } }, z = { 0 }; char b2[70] = { a }, b3[33] = "", b4[7] = { [6] = 1 }; long q[9] = { [8] = b }; int i; v = x.p.x[4] + x.p.c + x.u[1].i + x.l + y.p.x[0] + y.u[1].i + y.u[0].i + z.l; for(i = 0; i < 70; i++) v += b2[i]; for(i = 0; i < 33; i++) v += b3[i]; for(i = 0; i < 7; i++) v += b4[i] * i; for(i = 0; i < 9; i++) v += q[i] * (i + 1); for(i = 0; i < 5; i++) v += x.p.x[i] + z.p.x[i]; for(i = 0; i < 9; i++) v += x.u[0].c[i];)~"},
	{"dsg", false, R"~(struct in { int a, b; }; struct { struct in x, y[3]; int z; } s = { .y[1].b = 3, 4, 5, .x.a = 1, 2, { 6 }, .z = 7, .y[0] = { .b = 8 }, .y[1] = { 9 } }; int t[] = { 1, [5] = 2, 3, [1] = 4, 5, [2 ... 3] = 6 }, w[2][2] = { 1, 2, 3 }, r[][2] = { 1, 2, { 3 }, 4, 5, 6 }; struct in k[] = { 1, 2, { 3 }, [4].b = a, [3] = { .a = b } }; v = s.x.a + s.x.b * 3 + s.y[0].a * 5 + s.y[0].b * 7 + s.y[1].a * 11 + s.y[1].b * 13 + s.y[2].a * 17 + s.y[2].b * 19 + s.z; v = v * 3 + t[1] + t[2] * 3 + t[3] * 5 + t[6] * 7 + sizeof t + w[1][0] + w[1][1] + sizeof r + r[1][1] + r[2][0] * 3 + r[3][0] + k[1].a + k[4].b + k[3].a + sizeof k;)~"},
	{"ovf1", false, R"~(int r; unsigned u; long l; signed char c; unsigned short s;
v = __builtin_add_overflow((int)a, (int)b, &r); v += r * 3L; v += __builtin_sub_overflow((unsigned)a, (unsigned)b, &u) * 5; v += u; v += __builtin_mul_overflow(a, b, &l) * 7; v ^= l;)~"},
	{"choose", false, R"~(v = __builtin_choose_expr(sizeof(long) == 8, a, "x") + __builtin_types_compatible_p(int, const int) * 2 + __builtin_types_compatible_p(char, signed char) * 4 + __builtin_expect(b, 0) + __builtin_offsetof(struct { char c; int x[4]; }, x[2]);)~"},
	{"memfn", false, R"~(char x[32]; int i; for(i = 0; i < 32; i++) x[i] = a + i * b; x[31] = 0; x[(unsigned)b % 31] = 0;
{ char *p = x; while(*p++) v += *p & 3; v += p - x; })~"},
	{"clean", false, R"~({ long k __attribute__((cleanup(sn_clnp))) = a; long j __attribute__((cleanup(sn_clnp))) = b; sn_clnv = 1; v = k + j; if(a & 1) goto out$; v += 2; { long m __attribute__((cleanup(sn_clnp))) = 5; v += sn_clnv; } v += sn_clnv * 3; }
out$: v += sn_clnv;)~"},
	{"clean2", false, R"~(int i; sn_clnv = 0; for(i = 0; i < 6; i++){ long k __attribute__((cleanup(sn_clnp))) = i + a; if(i == (b & 7)) break; if((a >> i) & 1) continue; v += k; } v += sn_clnv;)~"},
	{"tern2", false, R"~(struct sn_pt x = { a, b }, y = { b, a }, z = a > b ? x : y; v = z.x + (a & 1 ? x : y).y * 3 + (b & 1 ? &x : &y)->x; z = (v++, b & 2 ? sn_mk(a, 3) : sn_mk(b, 4)); v += z.x - z.y; z = y = x; v ^= z.y + y.x;)~"},
	{"tern3", true, R"~(v = (a ? 1 : 2u) - 3 > 0; v += (a ? (char)-1 : (unsigned char)255) < 0; v += sizeof(a ? (char)1 : (short)2) + sizeof(a ? 1 : 1.0f); v += a < 0 ? b < 0 ? 1 : b == 0 ? 2 : 3 : b > 5 ? 4 : 5; v += (a ? (void *)0 : &v) == &v;)~"},
	{"lnot", false, R"~(v = !a + !!b * 2 + !(a && b) * 4 + !(a || !b) * 8 + (!a == !b) * 16 + (!(a < b) ^ !(b < a)) * 32 + -!a + ~!b + !(char)a * 64 + !(short)b * 128 + !(int)(a >> 1) * 256;)~"},
	{"fneg", true, R"~(double d = -f, e = -d, z = 0 * f; float g = f; v = (d < e) + (e == f) * 2 + (-0.0 == 0.0) * 4 + (1 / (z == 0 ? 1.0 : 2.0) > 0.7) * 8 + (!d) * 16 + (!!g) * 32 + (d && g) * 64 + (d || a) * 128; g = -g; g++; --g; g += 1; d--; d -= g; v += (long)(d > 1e6 || d < -1e6 ? 1 : d * 8);)~"},
	{"fcmp", true, R"~(float g = f; int i = (int)(a & 0xff); v = (f < i) + (i <= f) * 2 + (g > f) * 4 + (g >= i) * 8 + (f != g) * 16 + (g == i) * 32 + ((f < 1) == (g < 1)) * 64 + (f > 0 && f < 10 || g > 100) * 128; if(f < 1.5) v += 256; if(!(g > 2.5f)) v += 512; while(f > 1){ f /= 3; v += 1024; } v += (f < 0 ? -f : f) > .5;)~"},
	{"farr", true, R"~(double x[5] = { 1, 2.5, f, [4] = -3 }, s = 0, *p = x; float y[2][2] = { { 1.25f, a & 31 }, { b & 63 } }; int i; for(i = 0; i < 5; i++) s += x[i] * (i + 1); *++p += 4; p[1] = *p - 1; x[3] = *p++ * 2; s += x[1] + x[2] + x[3] + y[0][1] * y[1][0] + y[1][1]; v = (p - x) + (long)(s > 1e9 || s < -1e9 ? 7 : s * 4);)~"},
	{"fstr", true, R"~(struct fs { char c; float g; double d; float h[3]; } x = { 1, 2.5f, f, { 1, 2 } }, y = x, *p = &y; p->g += 1.5; p->h[2] = p->h[0] - p->g; y.d = -x.d; y.h[a & 1] *= 3; *p = y; v = (long)(y.g * 4 + p->h[2] * 8 + y.h[0] + y.h[1] * 16) + (y.d == -x.d) + sizeof x;)~"},
	{"fint", true, R"~(double d = a & 0xfffffffffffL; float g = b & 0xffffff; v = (char)(long)d + (short)(int)g * 3L + (long)d + (int)g + (long)(d / 4) + (int)(g * .5f) + (signed char)(a % 100 * 1.0) + (unsigned char)(b & 127 ? 200.5 : 3.5) + (short)-(b % 30000 * 1.0f);)~"},
	{"fmix", true, R"~(long l = a & 0xffff; char c = b & 31; short s = a & 511; float g = 1.5f; l *= g; c += 2.75; s -= g; s /= 2.5; l += c * g; l = l / 3.0; c = c - .5f; v = l + c * 3 + s * 5 + (long)(c ? g : s) + (long)((l > 5) + g * 4) + (int)(g += s) + (int)g++ + (int)--g;)~"},
	{"fcall", true, R"~(double (*h)(double, double) = sn_fmn; v = (long)(h(1.5, b & 63) * 8) + (long)(sn_fmn(a & 15, sn_fmn(2.25, 3)) * 4) + (long)(h(sn_fmn(a & 7, 5), sn_fmn(b & 7, 4)) + sn_fmn(1, 2) * sn_fmn(3.5, a & 3)) + (sn_fmn(f, 0) < 0);)~"},
	{"inl1", false, R"~(v = sn_iabs(a) + sn_iabs(b) * 3 + sn_iclamp(a, -100, 100) + sn_iclamp(b, sn_iclamp(a, 0, 5), 50) * 7 + sn_iabs(sn_iclamp(a, b, b + 1)) + sn_imod(&v, 3) + v + sn_iloop(a & 15) + sn_iloop(b & 7);)~"},
	{"inl2", false, R"~(long k = a; v = sn_imod(&k, b & 15) + k + sn_imod(&k, sn_iabs(b) & 3) * 2; k = sn_iabs(k) ? sn_iclamp(k, 1, 9) : sn_iabs(b) & 1; v += k; if(sn_iabs(a) > 5 && sn_iclamp(b, 0, 3) == 2) v += 100;)~"},
	{"ptrar", false, R"~(struct t12 { int x[3]; } x[6], *p = x + 4, *q = &x[1]; struct t24 { long l[3]; } y[3]; int k; for(k = 0; k < 6; k++) x[k] = (struct t12){ { a + k, b - k, k } }; for(k = 0; k < 3; k++) y[k].l[k] = a * k;
v = (p - q) * 100 + p[-1].x[1] + q[(unsigned)a % 4].x[2] + (&y[2] - y) + (q - p) + y[(unsigned)b % 3].l[(unsigned)b % 3]; p -= 2; q += (a & 1) + 1; v += (p == q) + (p >= q) * 2 + (p < q) * 4 + p->x[0] - q->x[0]; v += (char *)p - (char *)x + ((long)p - (long)q);)~"},
	{"ptrpp", false, R"~(int x = a, y = b, *p = &x, *q = &y, **pp = &p, ***ppp = &pp; int *t[3] = { &x, &y, &x }; **pp += 3; *pp = q; ***ppp -= 1; pp = t; v = **pp++ + **pp * 3; *t[2] = 7; v += x * 5 + y + *t[(unsigned)a % 3] + (*ppp == t + 1) + (p == q); ppp[0][1] = t[1]; v += *t[2];)~"},
	{"ptrarr", false, R"~(int x[3][4], (*p)[4] = x, (*q)[3][4] = &x, i, j; for(i = 0; i < 3; i++) for(j = 0; j < 4; j++) x[i][j] = a * i + b * j; p++; v = (*p)[2] + p[1][3] * 3 + (*q)[1][1] + *(*p + 1) + (*(*q + 2))[1] + *p[-1] + (q + 1 == (void *)(x + 3)) + sizeof *q + sizeof **q + (p[1] - *p);)~"},
	{"neg", false, R"~(v = -a + ~b + -(char)a * 3 + ~(unsigned char)b + -(unsigned)a % 7 + ~(unsigned)b / 3 + - -(short)a + +(char)b + -(a & 1) + (-b < 0) + ~(a | b) + (unsigned short)-a + (unsigned char)~b;)~"},
	{"narrow", false, R"~(char c = a; unsigned char uc = b; short s = a * 3; unsigned short us = b * 5; int i = a ^ b; unsigned u = a + b;
v = c + uc * 3 + s * 5L + us * 7L; c += uc; uc -= s; s <<= 3; us >>= 2; i /= 3; u %= 7; v = v * 3 + c + uc + s + us + i + u; c = uc = s = i; v += c + uc * 2 + s; v += (c = a) + (uc = b) + (us = -1) + (_Bool)(s = 0);)~"},
	{"nar2", false, R"~(unsigned char x = a, y = b; short s; v = (x + y) + (x - y) * 3 + (x * y) + (x << 3) + (y >> 1) + (x < y) + (x - y < 0) + ~x + -y + (x ^ 0xff) + (unsigned char)(x + y) + (signed char)(x - y); s = x * 300; v += s; x++; --y; v += x-- - ++y; x = -x; y = ~y; v += x + y;)~"},
	{"shf2", false, R"~(unsigned u = a; int i = b; unsigned long ul = a; v = (u << 31) + (u >> 31) + (i >> 31) + (ul >> 63) + (a >> 63) + (ul << 63) + ((char)a << 24) + ((unsigned char)b >> 7) + ((short)a >> 15) + (1 << (b & 31)) + (1L << (a & 63)) + (u >> (b & 31)) + (i >> (a & 31)) + (-1L >> (b & 63)) + ((u << 7 | u >> 25) ^ (ul >> 13 | ul << 51));)~"},
	{"shf3", false, R"~(char k = a & 7; unsigned char uk = b & 15; short s = a; s >>= k; v = s; s <<= 2; v += s; unsigned w = b; w <<= uk; w >>= k; v += w; long l = a; l <<= k + uk; l >>= 3; v ^= l; v += 5 << k; v += (unsigned long)a >> uk << k;)~"},
	{"div2", false, R"~(int i = a; unsigned u = b; char c = b; short s = a; v = i / 7 + i % 7 * 3L + i / -8 + i % 16 + i / 1 + u / 10 + u % 10 * 5 + u / 16 + u % 256 + c / 3 + c % 4 + s / 100 + s % 1000 + a / 1000 + a % 64 + (unsigned long)b / 12345 + (unsigned long)a % 1024; v += (i | 1) ? 1000 / (i | 1) : 0; v += c ? -128 / (c | 1) : 5; v += 77u % (u | 1) + 9L % (b | 1);)~"},
	{"div3", false, R"~(int i = a | 1; i /= i; v = i; unsigned char c = b | 1; c /= 3; v += c; c = 250; c %= (b & 15) + 1; v += c * 3; long l = a; l /= 10; l %= 1000; v += l; short s = -1; s /= (b & 7) + 1; v += s; unsigned u = -1; u /= (a & 7) + 2; v += u; l = -7; v += l / 2 + l % 2 + l / -2 + (-l) % 3; )~"},
	{"cmp2", false, R"~(char c = a; unsigned char uc = b; short s = b; unsigned short us = a; int i = a; unsigned u = b; v = (c < uc) + (s > us) * 2 + (i < u) * 4 + (c == uc) * 8 + (a < u) * 16 + ((unsigned long)b > i) * 32 + (uc >= c) * 64 + (us <= i) * 128 + (u != i) * 256 + (c < 'a') * 512 + (uc > 200) * 1024 + (s == -1) * 2048 + (us == 0xffff) * 4096 + (u == -1) * 8192 + (i == 0x80000000) * 16384 + (c == 0x80) * 32768 + (b < 0xffffffff) * 65536 + (a > 0x7fffffffffffffff - 1) * 131072;)~"},
	{"cmp3", false, R"~(if(a < 0) v++; if(b >= 0) v += 2; if((char)a <= 0) v += 4; if((unsigned char)b > 0) v += 8; if((short)a) v += 16; if(!(int)b) v += 32; if(a & 8) v += 64; if((b & 0x100) == 0) v += 128; if(a - b) v += 256; if(~a) v += 512; if(a == b || a == -b) v += 1024; if((a ^ b) < 0) v += 2048; if(a >> 3 && b << 1) v += 4096; if(a, b) v += 8192; if((v & 1) != (a < 0)) v = -1;)~"},
	{"log2", false, R"~(int k = 0; v = (k++ || a) + (k++ && b) * 2; v += k * 4; v += (a && (k = 5, b)) * 16 + k * 32; v += (a > b || (k += 3) > 6 && a < 100) * 512; v += k * 1024; v += ((a && b) || (k-- && !a)) + ((a || b) && ++k); v = v * 3 + k; v += (a && 0) + (0 && k++) + (1 || k++) + (b || 1); v += k; int m = a && b ? k++ : a || b ? --k : (k += 2); v += m + k;)~"},
	{"swt2", false, R"~(enum e { A = -5, B, C = 10, D }; enum e x = a % 4 == 0 ? A : a % 4 == 1 ? B : (enum e)(b & 15); switch(x){ case A: v = 1; case B: v += 2; break; case C ... D: v = 30; break; default: v = 4; } switch((short)b){ default: v += 10; break; case -32768 ... -1: v += 20; break; case 0: v += 30; case 1: ; } switch(a > b){ case 0: v += 100; break; case 1: v += 200; } switch((_Bool)a){ case 1: v += 1000; })~"},
	{"swt3", false, R"~(int i; for(i = 0; i < 9; i++) switch(i ^ (a & 3)){ case 1: continue; case 2: switch(b & 3){ case 0: v += 5; break; case 1: v += 6; default: v += 7; case 2: break; } break; case 4: { int j = 2; while(j--) if(b & 1) break; v += j; } case 5: v *= 3; break; case 8: i++; default: v += i; if(0){ case 7: v -= 4; } })~"},
	{"swt4", false, R"~(unsigned long u = b; switch(u){ case 0xffffffffffffffff: v = 1; break; case 1ul << 63: v = 2; break; case 0 ... 0x7fff: v = 3; break; case 0xffffffff: v = 4; break; default: v = 5; } switch((int)a){ case 0x7fffffff: v += 10; break; case -0x7fffffff - 1: v += 20; break; case 'a' + 'b': v += 30; break; case sizeof(int): v += 40; break; case ~0: v += 50; break; case !0: v += 60; } switch(a){ case 100 ... 40000000000: v += 100; })~"},
	{"lopp", false, R"~(int i, n = a & 15; for(i = n; i--;) v += i; for(i = 0; ; i++) if(i * i > (b & 255)) break; v += i; i = 3; do if(i == 2) continue; else v += 7; while(--i > 0); while(i < 5) { if(i++ & 1) continue; v ^= i; } for(int i = 0, j = 10; i < j; i += 2, j--) v += i * j; { int i = 100; v += i; } v += i; for(char c = 'a'; c <= 'e'; c++) v += c; for(unsigned u = 3; u-- > 0;) v += u;)~"},
	{"gotoin", false, R"~(int i = 0; if(a & 1) goto in$; for(i = 5; i > 0; i -= 2){ v += i; in$: v += 3; if(v > (b & 63)) goto end$; } v += 100; { static int k; k ^= 0; end$: v += k; } if(0) { l$: v += 1000; goto fin$; } if(v & 2) goto l$; fin$: ;)~"},
	{"stc2", false, R"~(static int t[4] = { 3, 1, 2 }; static const char *const s[] = { "ab", "cde", "", [4] = "f" }; static long k = -5, *p = &k; static struct { char c; short s; char *q; } x = { 'x', -2, "hello" + 1 }; static char m[] = "xyz", (*mp)[4] = &m; static int *q = t + 2, *e = &t[3];
v = t[(unsigned)a % 4] + s[(unsigned)b % 2][a & 1] * 3 + *p + x.c + x.s + x.q[(unsigned)b % 5] + (*mp)[b & 3] + *q + (e - t) + (s[3] == 0) + *s[4];)~"},
	{"stc3", false, R"~(static unsigned char c = 300 & 0xff; static short s = -1; static unsigned u = -1; static long l = 0x80000000, m = -0x80000000, n = 1u << 31, o = ~0u, p = -1 > 1u, q = (char)200, r = sizeof(int[3]) * -1, t = 5 ? 6 : 7, w = 'a' ? 1 : 0, y = !5 || 7 && 0, z = (unsigned char)-1 << 4; static _Bool bo = 5; static unsigned long ul = -1; static int i = 7 / 2 * 2 % 4 - (3 ^ 1) + (1 << 4 >> 2);
v = c + s + u + l + m * 3 + n + o + p + q + r + t + w + y + z + bo + (ul >> 60) + i + a;)~"},
	{"stf", true, R"~(static double d = 1 / 3.0, e = 5, g = -.5e3, h = 1 / 4; static float k = 1.1, m = 16777217, n = 3 > 2.5; static int i = 7.9, j = -2.5, o = (int)2.5 * 2, p = 1.5 < 2; static long l = 1e15; v = (long)(d * 1e6) + (long)e + (long)g + (long)h + (long)(k * 1000) + (long)m + (long)n + i + j + o + p + l + (d == 1 / 3.0) + (k == 1.1) + (k == 1.1f);)~"},
	{"str3", false, R"~(char *p = "one\0two", *q = "a" "b" "\x41" "1" "\1011", r[] = { "z" }, s[3] = "abc", t[10] = { 'x', "mno"[1] }; v = p[4] + q[2] + q[3] + q[5] + r[1] + s[2] + t[1] + t[9] + sizeof "\0\0" + sizeof(r) + "abc"[a & 3] + *("def" + (b & 3)) + (b & 3)["ghi"] + '\'' + '"' + '\\' + '\a' + '\v' + '\x7f' + '\0';)~"},
	{"enm2", false, R"~(enum { P, Q = 5, R, S = -1, T, U = Q + R * 2, W = 'c', X = sizeof(long), Y = 1 << 30 }; enum f2 { F1 = 1, F2 = 2, F4 = 4 } g = F1 | F4; enum f2 *p = &g; g |= (enum f2)(a & 15); *p &= ~F2; v = P + Q + R + S + T + U + W + X + Y + g + (g == F1) + (*p > F4) + sizeof g; { enum { P = 77 }; v += P; } v += P;)~"},
	{"bfs1", false, R"~(struct { unsigned a : 3, b : 5; int c : 4, : 3, d : 7; unsigned long e : 40; long g : 23; unsigned char h : 1; _Bool i : 1; } x = { a, b, a, b, a, b, a & 1, b }, y; y = x; x.a++; x.b -= 3; x.c ^= 5; x.d <<= 1; x.e += b; x.g = -x.g; x.h = !x.h; v = x.a + x.b * 3 + x.c * 5 + x.d * 7 + (long)x.e + x.g * 11 + x.h + x.i + y.a + y.b + y.c + y.d + (long)y.e + y.g + y.h; v += (x.a > 3) + (x.c < 0) * 2 + (x.e == y.e) + -x.a + ~x.b + (x.a << 4) + (x.a - 10 < 0);)~"},
	{"bfs2", false, R"~(struct bs { int x : 9; unsigned y : 17; short z : 6; } s[3] = { { a, b, a }, { 1, 2, 3 } }, *p = s; union { struct { unsigned lo : 4, hi : 4; }; unsigned char c; } u; u.c = b; p[1].x = p->y; p++; p->z += s[0].z--; s[2] = *p; p->y = p->x = -1; v = s[0].x + s[0].y * 3 + s[0].z + s[1].x * 5 + s[1].y + s[1].z * 7 + s[2].x + s[2].y + s[2].z + u.lo * 3 + u.hi; u.hi = a; v += u.c; v += sizeof(struct bs);)~"},
	{"cpl2", false, R"~(struct sn_pt *p = &(struct sn_pt){ a, b }; int *q = (int[]){ 1, a, 3 }; v = p->x + p->y * 3 + q[1] + (struct sn_pt){ .y = b }.y + ((int[4]){ 5, 6 })[a & 3] + *(char *){ (char[]){ "xyz" } } + (long){ b } + (int){ 3 }; { int i; for(i = 0; i < 3; i++){ int *r = (int[2]){ i, v }; r[0]++; v += r[0]; } } p = &(struct sn_pt){ p->y, p->x }; v += p->x; *p = (struct sn_pt){ 1 }; v += p->y + (&(union { long l; char c; }){ a })->c;)~"},
	{"des2", false, R"~(struct { struct { int a, b[3]; } c; int d[6]; struct sn_pt e[2]; } x = { { 1, { 2, [2] = a } }, .d = { [1 ... 3] = 4, [2] = b, 9 }, .e[1].y = 7, .e[0] = { 5 }, .c.b[1] = 6 }, y = { .d[5] = 1, .c = { .b = { 8 } } }; int z[] = { [3] = 1, 2, [1] = 3, [6] = a }; v = x.c.a + x.c.b[0] * 3 + x.c.b[1] + x.c.b[2] + x.d[0] + x.d[1] + x.d[2] + x.d[3] * 5 + x.d[4] + x.e[0].x + x.e[0].y + x.e[1].x + x.e[1].y + y.d[5] + y.c.b[0] + y.c.a + sizeof z + z[1] + z[2] + z[4] + z[6];)~"},
	{"nest", false, R"~(struct o { struct n { struct sn_pt p[2]; char c; } n[2], *q; int k; } x = { 0 }, *y = &x; y->q = &y->n[1]; y->q->p[a & 1].x = b; y->n[0].c = a; x.n[1].c = y->n->c + 1; y->q[-1].p[1] = y->q->p[a & 1]; v = x.n[0].p[1].x + x.n[1].c + y->q->p[0].x * 3 + sizeof x + ((char *)&y->q->p[1].y - (char *)y); struct n z = *y->q, *w = &z; w->p[0].y++; v += w->p[0].y + x.n[1].p[0].y;)~"},
	{"unn2", true, R"~(union u { double d; unsigned long l; int i[2]; struct { short a; char b[6]; } s; } x = { .s = { 1, { 2, a } } }, *p = &x, y[2] = { { .l = b }, { .i = { 3, 4 } } }; v = x.i[0] + p->s.b[1]; p->i[1] = b; v += p->l + y[1].l + y[0].i[1] + y[1].s.b[2]; x = y[a & 1]; v ^= x.l; p = y; p++->i[0] = 9; v += y[0].i[0] + p->i[1] + sizeof *p;)~"},
	{"va2", true, R"~(v = sn_vmix(4, 'c', (short)a, 2.5f, b, (char)b, 3.75, "str", &v) + sn_vmix(2, 1, 2, 1.5, 7L, 3, 2.5, "x", (void *)0) * 3 + sn_vfw(3, a, b, 5L) + sn_vfw(9, 1L, 2L, 3L, 4L, 5L, 6L, 7L, a, b);)~"},
	{"va3", true, R"~(v = sn_vst(2, sn_mk(1, 2).x, a, sn_mk(b, 3).y, 4L) + sn_vfl(12, 1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 11., 12.5) + sn_vfl(3, 1.5f, (double)(a & 7), .25);)~"},
	{"fptr2", false, R"~(struct ops { long (*f)(long, long); int (*c)(int, int); struct sn_pt (*m)(int, int); } o[2] = { { sn_add, sn_lt, sn_mk }, { .m = sn_mk, .c = sn_gt } }, *p = o; p[1].f = p->f; v = o[a & 1].f(a, b) + p->c(a, b) + (*p[1].c)(b, a) + p->m(a, b).x + (a & 1 ? sn_lt : sn_gt)(1, 2) + (&sn_add)(1, 2) + (**sn_add)(3, 4) + sn_fpick(b & 1)(a, 7) + (sn_fpick(0) == sn_fpick(2)) + (o[0].c != sn_gt);)~"},
	{"rec2", false, R"~(v = sn_fact(a & 7) + sn_gcd(a & 1023, b & 511) + sn_collatz((b & 31) + 1, 0) + sn_hanoi(a & 3, 1, 2, 3) + sn_binom(6, a & 7) + sn_mut1(b & 15) * 3;)~"},
	{"typd", false, R"~(typedef int I, *PI, A3[3], F2(int, int); typedef struct { I i; PI p; A3 a; } S; I i = a; PI p = &i; A3 x = { 1, 2, b }; S s = { i, p, { 4 } }; F2 *h = sn_lt; const PI cp = p; v = *s.p + s.a[0] + x[2] * 3 + h(1, 2) + *cp + sizeof(A3) + sizeof(S); { typedef char I; I c = a; v += c + sizeof(I); } { int I = 5; v += I; } I z = 3; v += z; __typeof__(x[0] + 1L) l = b; v += l; __typeof__(*p) k = *p; v += k; unsigned typedef U; U u = -1; v += u > 5;)~"},
	{"gen2", true, R"~(v = _Generic(a, int: 1, long: 2, default: 3) + _Generic((char)1, char: 10, signed char: 20, int: 30) + _Generic(1.f, double: 100, float: 200) + _Generic(&v, const long *: 1, long *: 3) + _Generic('a', int: a, char: b) + _Generic(1u + 1, unsigned: 5, int: 6) + _Generic((short)1 + (char)1, int: 7, default: 8) + _Generic(a < b, int: 9, default: 0);)~"},
	{"vlb", false, R"~(int n = (a & 3) + 1, m = (b & 3) + 2, i, j; int x[n][m]; char y[m * 2 + 1]; short (*p)[m] = 0; for(i = 0; i < n; i++) for(j = 0; j < m; j++) x[i][j] = i * 10 + j + a; for(i = 0; i < m * 2 + 1; i++) y[i] = i + b; v = x[n - 1][m - 1] + sizeof x + sizeof *x + sizeof y + y[m] + (x[n - 1] - x[0]) + (&x[1] - &x[0]) + sizeof *p; int (*q)[m] = x; n = 99; q += 0; v += (*q)[1] + sizeof x; { int z[m]; z[m - 1] = 3; v += z[m - 1] + *(z + m - 1); })~"},
	{"vlc", false, R"~(int i; for(i = 1; i < 5; i++){ char x[i * 3]; int y[i]; x[i] = a + i; y[i - 1] = b; if(i == (a & 7)) continue; { long z[x[i] & 3 ? 2 : 3]; z[1] = i; v += z[1] + sizeof z; if(i == (b & 7)) break; } v += x[i] + y[i - 1] + sizeof y; })~"},
	{"volt", false, R"~(volatile int x = a; volatile char c = b; volatile long l[2] = { a, b }, *p = l; struct { volatile short s; int k; } volatile s = { 3, 4 }; x++; c += x; p[1] -= c; v = x + c-- + *p++ + *p + s.s++ + s.k; x = c = 5; l[0] ^= x; v += x + c + l[0] + (x, 3) + (x ? c : x);)~"},
	{"exst", false, R"~(v = ({ int k = a; k += 3; k * 2; }) + ({ long v = b; if(v < 0) v = -v; v; }) + ({ struct sn_pt p = sn_mk(a, b); p; }).y; int i = ({ int r = 0, j; for(j = 0; j < 4; j++) r += j ^ (a & 3); r; }); v += i + ({ v; }) + ({ switch(b & 1){ case 0: i = 8; break; default: i = 9; } i; }); ({ v++; }); v += ({ ({ 3; }) + ({ a & 1; }); });)~"},
	{"inca", false, R"~(int x[5] = { 1, 2, 3, 4, 5 }, *p = x, i = 0; char s[] = "hello", *q = s; x[i++] += 10; x[++i] = 9; *p++ -= 1; (*p)++; v = *p++; v += *++p * 3 + i; p[-1]--; --*p; v += x[0] + x[1] * 3 + x[2] * 5 + x[3] * 7 + x[4]; while(*q) *q++ ^= a & 1; v += s[0] + s[4] + (q - s); q -= 2; v += *q--; v += q[1] + (*q)--; v += *q; long l = 5; l++; v += i--; v += --i; v += l;)~"},
	{"conv3", false, R"~(v = (char)a + (unsigned char)a * 3 + (short)b * 5 + (unsigned short)b + (int)a + (unsigned)b + (long)(int)a + (long)(unsigned)b + (unsigned long)(char)a % 1000 + (int)(short)a + (unsigned)(signed char)b % 7 + (char)(unsigned char)b + (_Bool)(char)(a & 0xff00) + (_Bool)a * 3 + (unsigned short)(signed char)a + (long)(unsigned char)(signed char)-1 + (short)(unsigned char)b + (long)(void *)a + (int)(long)(char *)b;)~"},
	{"conv4", false, R"~(signed char c = a; unsigned short us = b; long l = c; unsigned u = c; unsigned long ul = us; int i = us; l += u; v = l + ul + i + (ul > u) + (c < us) + (long)u * 3; c = us; us = c; u = us; v += c + us + u; i = ul + c; v += i; ul = i; v += ul % 97; u = ul; v ^= u; l = (c = 0x1ff) + (us = 0x1ffff); v += l;)~"},
	{"gcl", false, R"~(v = sn_gcl[a & 3] + sn_gcl2->a * 3 + sn_gcl2->s[b & 3] + *sn_gcl2->p + *sn_gcl3[0].p * 5 + sn_gcl3[2].p[(a & 2) - 1] * 7 + sn_gcl3[2].a + (sn_gcl3[1].p == 0); sn_gcl[a & 3] += b; v ^= sn_gcl[1]; sn_gcl[a & 3] -= b; *sn_gcl2->p ^= a & 3; v += *sn_gcl2->p; *sn_gcl2->p ^= a & 3;)~"},
	{"gbf", false, R"~(v = sn_gbf.a + sn_gbf.b * 3 + (long)sn_gbf.c * 5 + sn_gbf.d * 7 + sn_gbf.e * 11 + sn_gbf.f * 13 + sn_gbf.g * 17 + sn_gbf.h; v ^= (long)sn_gbf2[(unsigned)a % 3].c + sn_gbf2[(unsigned)b % 3].e * 3 + sn_gbf2[2].b + sn_gbf2[1].g; v += sn_gbf3.a + sn_gbf3.b * 3L + (long)sn_gbf3.c * 7 + sn_gbf3.d; sn_gbf.c ^= a; v ^= sn_gbf.c; sn_gbf.c ^= a;)~"},
	{"gun", false, R"~(v = sn_gun.c[(unsigned)a % 5] + sn_gun.s * 3L + sn_gun2.s * 5 + sn_gun2.l * 7 + sn_gun3[0].p.y + sn_gun3[1].p.x * 3L + sn_gun3[1].p.y * 5 + sn_gun3[(unsigned)b % 3].l + sn_gun4.a + sn_gun4.l * 3 + sn_gun5.t + sn_gun5.i[(unsigned)a % 3] * 7 + sn_gun5.z * 3 + sn_gun6.c * 100 + sn_gun6.i[1] + sn_gun6.z;)~"},
	{"gds", false, R"~({ int i; for(i = 0; i < 12; i++) v = v * 3 + sn_gds[i]; for(i = 0; i < (int)(sizeof sn_gds2 / 4); i++) v = v * 5 + ((int *)&sn_gds2)[i]; for(i = 0; i < (int)(sizeof sn_gds3 / 4); i++) v = v * 7 + ((int *)sn_gds3)[i]; v += ((int *)&sn_gds4)[(unsigned)a % 13]; v ^= sn_gds3[b & 3].b.x; })~"},
	{"gst", false, R"~({ unsigned i; for(i = 0; i < sizeof sn_gst; i++) v = v * 3 + sn_gst[i]; v += sizeof sn_gst * 100 + sizeof sn_gst3 + sn_gst2[(unsigned)a % 3] + sn_gst3[(unsigned)b % 8] * 3 + sn_gst4[a & 1][b & 3] * 5 + *sn_gst5[1] + (sn_gst5[2] == 0) * 7 + sn_gst5[3][a & 1] + sn_gst5[4][(unsigned)b % 7] * 9; v ^= sn_gst6[(unsigned)a % 4] + sizeof sn_gst6 + sn_gst7[b & 1] * 11L + sn_gst8[a & 3][b & 1] + sizeof sn_gst8; sn_gst[0] ^= a; v += sn_gst[0]; sn_gst[0] ^= a; })~"},
	{"gad", false, R"~(sn_gad[(unsigned)a % 10] = b; v = *sn_gad1 + sn_gad2[2] * 3 + *sn_gad3[0] * 5 + *sn_gad3[1] * 7 + *sn_gad3[2] * 11 + sn_gad4 * 13 + sn_gad5 * 17 + (sn_gad6 - sn_gad7) + (sn_gad8 == &sn_gad8) + sn_gad9.n->b[a & 3] + sn_gada.n->n->a * 3 + *sn_gadb * 5 + *sn_gadc * 7 + sn_gadd * 9 + (sn_gade - (char *)&sn_gad9) + (sn_gadf - sn_gad) * 3 + (sn_gadg - sn_gad) * 5 + sn_gadi * 3 + sn_gadj * 9; sn_gad[(unsigned)a % 10] = 0;)~"},
	{"gfn", false, R"~(v = sn_gfn[a & 3](b) + sn_gfnt[b & 1].f(a) * sn_gfnt[a & 1].k + sn_gfnp[0](3) + (*sn_gfnp)(b) + (**sn_gfn[2])(a) + (sn_gfn[0] == sn_gfn1) * 3 + (sn_gfn[1] == sn_gfn2) * 5 + (sn_gfnp[1] == *sn_gfn);)~"},
	{"gfl", true, R"~(v = (long)(sn_gfl * 8) + (long)(sn_gfl2[(unsigned)a % 7] * 4) + (long)(sn_gfl3[(unsigned)b % 3] * 4096) + sn_gfl4 * 3 + sn_gfl5 * 5 + sn_gfl6 * 7 + sn_gfl7 + (long)(sn_gfl8 * 1e6f) + (long)(sn_gfl9 * 1e9) + (long)sn_gfla + (long)(sn_gflb * 1e9) + (1 / sn_gfl2[1] < 0); sn_gfl2[1 + (a & 1)] += f; v ^= sn_gfl2[2] < sn_gfl2[1]; sn_gfl2[1] = -0.0; sn_gfl2[2] = 1;)~"},
	{"gnu", false, R"~(v = sn_gnu.a + sn_gnu.d.b * 3 + sn_gnu.e[(unsigned)a % 3] * 5 + sizeof sn_gnu; v += sn_gnu2[a & 1].b * 3L + sn_gnu2[b & 1].d * 7 + sn_gnu2[0].c + sizeof sn_gnu2; v ^= sn_gnu3[a & 1].b * 5 + sn_gnu3[b & 1].c * 7 + sizeof sn_gnu3 + ((long)&sn_gnu3[1].b & 15) * 3 + ((long)&sn_gnu4 & 63); v += sn_gnu5 * 3 + sn_gnu6[(unsigned)a % 6] * 11L + sizeof sn_gnu6 + GNM;)~"},
	{"gte", false, R"~(v = sn_gte2 + sn_gte3 + sn_gte4[(unsigned)a % 3] * 3 + sizeof sn_gte4; sn_gte3 = b; v += sn_gte3; sn_gte3 = 0; v += (sn_gtef2() - sn_gtef()) * 0 + sn_gte;)~"},
	{"gtl", false, R"~(v = sn_gtl[(unsigned)a % 3] + sn_gtl2[a & 1][(unsigned)b % 3] * 3 + sn_gtl4((unsigned)b % 3, sn_gtl2[a & 1]) + (*sn_gtl4)(1, (int *)sn_gtl) + sn_gtl5.n->n->v + sizeof sn_gtl2;)~"},
	{"gco", false, R"~(v = sn_gco + sn_gco2 * 3 + sn_gco3 * 5 + sn_gco4 * 7 + sn_gco5 * 11 + sn_gco6 * 13 + sn_gco7 * 17 + sn_gco8 * 19 + sn_gco9 * 23 + sn_gcoa * 29 + sn_gcob * 31 + sn_gcoc * 37 + sn_gcod * 41 + sn_gcoe * 43 + sn_gcof * 47 + sn_gcog * 53 + sn_gcoh * 59 + sn_gcoi * 61 + sn_gcoj * 67 + sn_gcok * 71 + sn_gcol * 73 + sn_gcom * 79; v ^= a;)~"},
	{"lsta", false, R"~({ static int k[3] = { 1, 2, 3 }, *p = &k[1]; static char s[] = "abc", *q = "xyz"; static struct { int a; char *b; int c[2]; } st = { .b = "pq" + 1, .c = { [1] = 4 } }; static const long sn_big = -5; static int *tab[] = { k + 2, k, 0 }; v = *p * 3 + k[(unsigned)a % 3] + s[a & 1] * 5 + q[b & 1] * 7 + *st.b + st.c[1] * 9 + st.c[0] + sn_big + *tab[a & 1] + (tab[2] == 0); k[1] += b; v ^= *p; k[1] -= b; })~"},
	{"lstlbl", false, R"~({ static void *t[] = { &&m0$, &&m1$, &&m2$ }; int n = a & 7; again$: if(n-- <= 0) goto end$; goto *t[(unsigned)(n + b) % 3]; m0$: v += 3; goto again$; m1$: v = v * 2 + 1; goto again$; m2$: v ^= 21; goto again$; end$: v += t[1] != t[2]; })~"},
	{"autini", false, R"~({ struct { int a : 4; unsigned b : 9; long c : 35; char d[3]; } x = { a, b, a + b, { 1, a } }, y = { .c = b, .d[2] = 7 }; int z[5] = { [3] = a, b, [0] = 7, 8 }, w[2][3] = { { a }, { [1] = b, 3 } }, u[4] = { [1 ... 2] = 6 }; union { char c[8]; long l; int i; } q = { .i = a }, q2 = { "abcdefg" }; v = x.a + x.b * 3 + (long)x.c * 5 + x.d[1] * 7 + x.d[2] + y.a + (long)y.c * 3 + y.d[2] + z[0] + z[1] * 3 + z[2] * 5 + z[3] * 7L + z[4] * 11L + w[0][0] * 13L + w[0][2] + w[1][1] * 17L + w[1][2] + u[0] + u[1] * 3 + u[2] * 5 + u[3] + (q.i ^ 5) + q2.l; })~"},
	{"rngini", false, R"~({ int n = 0; struct { int x; short y[3]; } r[5] = { [1 ... 3] = { 7, { 5, 2, 3 } }, [2].x = a, [3] = { b }, [1].y[1] = b }; int q[7] = { [0 ... 5] = n++, [2] = a, [4 ... 6] = 9 }, k; v = n; for(k = 0; k < 5; k++) v = v * 3 + r[k].x * 5L + r[k].y[0] + r[k].y[1] * 7 + r[k].y[2] + q[k + 2]; v += q[0] + q[1]; })~"},
	{"strini", false, R"~({ char s[] = "hello\0w", t[3] = "xyz", u[10] = "q", w[2][3] = { "ab", "c" }, *p = "lit" "eral"; int k; s[a & 7] ^= b; for(k = 0; k < (int)sizeof s; k++) v = v * 3 + s[k]; for(k = 0; k < 10; k++) v = v * 3 + u[k]; v += t[(unsigned)a % 3] + w[a & 1][(unsigned)b % 3] + p[(unsigned)b % 8] + sizeof s + __func__[0] + sizeof __func__; })~"},
	{"cplit", false, R"~({ struct ct { int x; long y; int z[2]; } *p = &(struct ct){ a, b, { 1 } }, q; int *r = (int[4]){ b, a, [3] = 5 }; int k; q = (struct ct){ .y = a, .z = { b } }; for(k = 0; k < 2; k++){ int *s = &(int){ k * 3 }; *s += a; v += *s; } v += p->x + p->y * 3 + p->z[0] + p->z[1] + q.x + q.y * 5 + q.z[0] * 7L + r[0] * 9L + r[2] + r[3] + ((int){ a } + 1) + sizeof(int[]){ 1, 2, 3 } + ((struct ct){ 3, b }).y; p->x++; v ^= p->x; })~"},
	{"stex", false, R"~(v = ({ long x = a; if(x > 5) x -= b; x; }) + ({ int y = b; y++; }) * 3 + ({ ; 5; }); { struct sn_pt p = ({ struct sn_pt t = { a, b }; t.x++; t; }); v += p.x * 3L + p.y; ({ v++; }); v += ({ void *q = &p; q; }) == &p; })~"},
	{"vaargc", false, R"~({ long (*fp)(int, ...) = a & 1 ? sn_sum : sn_sum; v = fp(2, a, b) + (a > b ? sn_sum : sn_sum)(1, b) + (*&sn_sum)(3, a, b, 5L) + (**sn_sum)(1, a); })~"},
	{"castfp", false, R"~(v = ((long (*)(long, long))(void *)sn_add)(a, b) + ((long (*)(long, long))(long)&sn_add)(b, 3) + (0, sn_add)(a, 1) + (a ? sn_add : 0 ? 0 : sn_add)(2, b);)~"},
	{"flags", false, R"~({ _Bool t = a < b, u = !(a == b), w = a && b; int x = (a < b) + (b < a) * 2, y = -(a > b), z = ~(a != b); v = t + u * 2 + w * 4 + x * 8 + y * 64L + z * 256L; v += ((a < b) == (b < a)) + ((a & b) != 0) * 3 + (!!a ^ !!b) * 5 + (a < b ? a > 0 : b > 0) * 7; v = v * 3 + ((t = a > 5) ? t : 2) + (a >= b && t) + (t | (b < 7)); })~"},
	{"fcond", true, R"~(v = (f ? 3 : 5) + (f && a ? 7 : 9) + (!f) * 11 + (f < 2.5) * 13 + (-f > 0 || b) * 17; if(f) v++; while(f > 1){ f /= 2; v += 3; } do f += .25; while(f < 0); v += (long)(f * 64); v += 0.5 ? 1 : 2; if(0.0) v += 100; if(0.1f) v += 200; v += f == f; { float g = f; double h = g ? g : f; v += (long)(h * 16) + (g != f) + !g; })~"},
	{"unary", false, R"~({ char c = a; short s = b; unsigned char u = a; unsigned n = b; _Bool t = a; v = +c + -s * 3L + ~u * 5L + -n * 7L + !c * 9 + +t + -t * 11 + ~t * 13 + sizeof +c + sizeof -t + (-u < 0) * 17 + (~n > 5) + +n / 3 - -s; v += -(char)c + ~(long)s + -+-c; })~"},
	{"forscp", false, R"~({ int i = 7, k = 0; for(int i = 0, *p = &i; *p < (a & 3); ++*p) k += i * 3; for(struct { int x; long y; } s = { 0, b }; s.x < 3; s.x++) v += s.y + s.x; for(;;){ if(k++ > 10) break; if(k & 1) continue; v += k; } v += i; { int i = k; { int i = b; v += i; } v += i * 3L; } if(a) { long a = 5; v += a; } v += a; })~"},
	{"inr", false, R"~(sn_inr("", 0); v = sn_inr1(a & 15, 0) + sn_inr2(b & 15, 0) * 3L + sn_inr3(a & 7, 0, 2) * 5 + sn_inr4(b & 7, 1) * 7 + sn_inr5(a & 4095, 3) * 11L + sn_inr5(512 + (b & 31), 3); { int p = 0; sn_inr6(&p, a & 7, 0); v += p * 13L; sn_inr6(&p, 3, b); v ^= p; } v += sn_inr7(a & 7, 0) * 17L + sn_inr7(b & 3, a) + sn_inr8(b, 0) * 19 + sn_inr8(a, 9) + sn_inr("ab\377c", 0) * 23L + sn_inr("xy", a) + sn_inr1(sn_inr1(b & 3, 1) & 7, 0);)~"},
};
static const struct { const char *name, *text; } SNIPPRE[] = {
	{"sn_ga", R"~(static int sn_ga[4] = { 11, 22, 33, 44 };)~"},
	{"sn_pt", R"~(struct sn_pt { int x, y; };)~"},
	{"sn_add", R"~(static long sn_add(long x, long y){ return x * 2 - y; })~"},
	{"sn_lt", R"~(static int sn_lt(int x, int y){ return x < y; })~"},
	{"sn_gt", R"~(static int sn_gt(int x, int y){ return x > y; })~"},
	{"sn_mk", R"~(static struct sn_pt sn_mk(int x, int y){ struct sn_pt r = { y, x }; return r; })~"},
	{"sn_sum", R"~(static long sn_sum(int n, ...){ __builtin_va_list l; long r = 0; __builtin_va_start(l, n); while(n-- > 0) r = r * 3 + __builtin_va_arg(l, long); __builtin_va_end(l); return r; })~"},
	{"sn_vsum", R"~(static long sn_vsum(const char *f, ...){ __builtin_va_list l, m; long r = 0; int k; __builtin_va_start(l, f); for(k = 0; k < 2; k++){ const char *p = f; __builtin_va_copy(m, l); for(; *p; p++) switch(*p){ case 'i': r += __builtin_va_arg(m, int); break; case 'l': r ^= __builtin_va_arg(m, long); break; case 'd': r += (long)(__builtin_va_arg(m, double) * 4); break; case 'c': r -= (char)__builtin_va_arg(m, int); } __builtin_va_end(m); } __builtin_va_end(l); return r; })~"},
	{"sn_fib", R"~(static int sn_fib(int n){ return n < 2 ? n : sn_fib(n - 1) + sn_fib(n - 2); })~"},
	{"sn_ack", R"~(static int sn_ack(int m, int n){ return m ? sn_ack(m - 1, n ? sn_ack(m, n - 1) : 1) : n + 1; })~"},
	{"sn_ev", R"~(static int sn_od(int); static int sn_ev(int n){ return n ? sn_od(n - 1) : 1; })~"},
	{"sn_od", R"~(static int sn_od(int n){ return n ? sn_ev(n - 1) : 0; })~"},
	{"sn_kr1", R"~(static int sn_kr1(x, y, c) int x; long y; char c; { return x - y + c; })~"},
	{"sn_kr2", R"~(static int sn_kr2(g, c, s) float g; char c; short s; { c++; s--; return g * 2 + c + s; })~"},
	{"sn_rc", R"~(static char sn_rc(long x){ return x; })~"},
	{"sn_ruc", R"~(static unsigned char sn_ruc(long x){ return x; })~"},
	{"sn_rs", R"~(static short sn_rs(long x){ return x; })~"},
	{"sn_rus", R"~(static unsigned short sn_rus(long x){ return x; })~"},
	{"sn_rb", R"~(static _Bool sn_rb(long x){ return x & 6; })~"},
	{"sn_ru", R"~(static unsigned sn_ru(long x){ return x; })~"},
	{"sn_rf", R"~(static float sn_rf(int x){ return x * 0.5f; })~"},
	{"sn_many", R"~(static long sn_many(int p, char c, char d, short e, long g, unsigned char h, char i, signed char j, unsigned short k, long l, _Bool m, char n){ c++; k--; return p + c * 3 + d * 5 + e * 7 + g * 11 + h * 13 + i * 17 + j * 19 + k * 23 + l * 29 + m * 31 + n * 37L; })~"},
	{"sn_manyf", R"~(static long sn_manyf(int p, float q, double r, float s, double t, float u, double w, float x, float y, double z, int c, char d){ y += 1; return (long)(p + q * 2 + r * 3 + s * 4 + t * 5 + u * 6 + w * 7 + x * 8 + y * 9 + z * 10) + c + d; })~"},
	{"sn_big", R"~(struct sn_big { char c[37]; };)~"},
	{"sn_mkbig", R"~(static struct sn_big sn_mkbig(int n){ struct sn_big r; int i; for(i = 0; i < 37; i++) r.c[i] = n + i * 3; return r; })~"},
	{"sn_di", R"~(struct sn_di { double d; int i; };)~"},
	{"sn_ff", R"~(struct sn_ff { float x, y; };)~"},
	{"sn_ld", R"~(struct sn_ld { long l; double d; };)~"},
	{"sn_mkdi", R"~(static struct sn_di sn_mkdi(double d, int i){ struct sn_di r = { d, i }; return r; })~"},
	{"sn_mkff", R"~(static struct sn_ff sn_mkff(int n){ struct sn_ff r = { n, n * 2 }; return r; })~"},
	{"sn_mkld", R"~(static struct sn_ld sn_mkld(long l, int n){ return (struct sn_ld){ l, n }; })~"},
	{"sn_vsum2", R"~(static long sn_vsum2(int n, int m, int x[n][m]){ long r = 0; int i, j; for(i = 0; i < n; i++) for(j = 0; j < m; j++) r = r * 3 + x[i][j]; return r + sizeof *x; })~"},
	{"sn_vf", R"~(static void sn_vf(int *p, int n){ if(n & 1) return; *p += n; })~"},
	{"sn_clnp", R"~(static long sn_clnv; static void sn_clnp(long *p){ sn_clnv = sn_clnv * 3 + *p; })~"},
	{"sn_fmn", R"~(static double sn_fmn(double x, double y){ return x < y ? x : y; })~"},
	{"sn_iabs", R"~(static inline long sn_iabs(long x){ return x < 0 ? -x : x; })~"},
	{"sn_iclamp", R"~(static inline long sn_iclamp(long x, long lo, long hi){ if(x < lo) return lo; if(x > hi) x = hi; return x; })~"},
	{"sn_imod", R"~(static inline long sn_imod(long *p, int k){ *p += k; k++; return *p * k; })~"},
	{"sn_iloop", R"~(static inline long sn_iloop(int n){ long r = 0; while(n > 0){ r += n; if(r > 50) break; n--; } return r; })~"},
	{"sn_vmix", R"~(static long sn_vmix(int n, ...){ __builtin_va_list l; long r = n; __builtin_va_start(l, n); r = r * 3 + __builtin_va_arg(l, int); r = r * 3 + __builtin_va_arg(l, int); r += (long)(__builtin_va_arg(l, double) * 4); r ^= __builtin_va_arg(l, long); r += __builtin_va_arg(l, int); r = r * 3 + (long)(__builtin_va_arg(l, double) * 8); r += __builtin_va_arg(l, char *)[0]; r += __builtin_va_arg(l, void *) == 0; __builtin_va_end(l); return r; })~"},
	{"sn_vfwd", R"~(static long sn_vfwd(int n, __builtin_va_list l){ long r = 0; while(n-- > 0) r = r * 5 + __builtin_va_arg(l, long); return r; })~"},
	{"sn_vfw", R"~(static long sn_vfw(int n, ...){ __builtin_va_list l, m; long r; __builtin_va_start(l, n); __builtin_va_copy(m, l); r = sn_vfwd(n / 2, l); r = r * 3 + sn_vfwd(n, m); __builtin_va_end(m); __builtin_va_end(l); return r; })~"},
	{"sn_vst", R"~(static long sn_vst(int n, ...){ __builtin_va_list l; long r = 0; __builtin_va_start(l, n); while(n--){ r += __builtin_va_arg(l, int) * 3; r += __builtin_va_arg(l, long); } __builtin_va_end(l); return r; })~"},
	{"sn_vfl", R"~(static long sn_vfl(int n, ...){ __builtin_va_list l; double r = 0; __builtin_va_start(l, n); while(n--) r = r * 2 + __builtin_va_arg(l, double); __builtin_va_end(l); return (long)r; })~"},
	{"sn_sub", R"~(static long sn_sub(long x, long y){ return x - y; })~"},
	{"sn_fpick", R"~(static long (*sn_fpick(int k))(long, long){ return k == 1 ? sn_add : sn_sub; })~"},
	{"sn_fact", R"~(static int sn_fact(int n){ return n <= 1 ? 1 : n * sn_fact(n - 1); })~"},
	{"sn_gcd", R"~(static int sn_gcd(int x, int y){ return y ? sn_gcd(y, x % y) : x; })~"},
	{"sn_collatz", R"~(static int sn_collatz(long n, int k){ if(n <= 1 || k > 40) return k; return n & 1 ? sn_collatz(n * 3 + 1, k + 1) : sn_collatz(n / 2, k + 1); })~"},
	{"sn_hanoi", R"~(static int sn_hanoi(int n, int x, int y, int z){ return n ? sn_hanoi(n - 1, x, z, y) * 2 + x - y + 1 + sn_hanoi(n - 1, z, y, x) : z; })~"},
	{"sn_binom", R"~(static int sn_binom(int n, int k){ return k == 0 || k >= n ? 1 : sn_binom(n - 1, k - 1) + sn_binom(n - 1, k); })~"},
	{"sn_mut1", R"~(static int sn_mut2(int); static int sn_mut1(int n){ return n > 0 ? sn_mut2(n - 1) + 1 : 0; } static int sn_mut2(int n){ return n > 0 ? sn_mut1(n - 2) * 2 : 1; })~"},
	{"sn_gcl", R"~(static int *sn_gcl = (int[]){ 3, 5, 7, 11 }; static struct sn_gcls { int a; char *s; int *p; } *sn_gcl2 = &(struct sn_gcls){ 5, "hello" + 1, &(int){ 9 } }, sn_gcl3[] = { { 1, "ab", (int[]){ 4, 8 } + 1 }, [2] = { .p = &(int[3]){ 6, 7, 8 }[1], .a = 2 } };)~"},
	{"sn_gbf", R"~(static struct sn_gbfs { int a : 3; unsigned b : 7; int : 0; long c : 40; unsigned char d : 5, e : 3; int f; short g : 9; _Bool h : 1; } sn_gbf = { -2, 100, -123456789012L, 17, 5, -99, -200, 1 }, sn_gbf2[3] = { [1] = { .c = 0x7fffffffffL, .e = 7, .g = 255 }, { 1, 2, 3 } }; static const struct { unsigned a : 1, b : 31; unsigned long c : 63, d : 1; } sn_gbf3 = { 1, 0x5a5a5a5a, 0x123456789abcdefUL, 1 };)~"},
	{"sn_gun", R"~(static union sn_gunu { char c[5]; short s; long l; float f; struct { int x, y; } p; } sn_gun = { "abc" }, sn_gun2 = { .s = -3 }, sn_gun3[3] = { { .p = { 1, -2 } }, { .p.y = 7 }, { .l = -1 } }; static union { unsigned a : 5; long l; } sn_gun4 = { 21 }; static struct { char t; union { char c; int i[3]; }; short z; } sn_gun5 = { 1, { .i = { 2, 3, 4 } }, 5 }, sn_gun6 = { 1, 2, 3 };)~"},
	{"sn_gds", R"~(static int sn_gds[12] = { 1, [4] = 5, 6, [2] = 3, [8 ... 10] = 9, [9] = 4, 8 }; static struct sn_gdsp { struct { int x, y[3]; } a[2], b; char n[4]; } sn_gds2 = { .a[1].y[1] = 5, 6, .b = { 7 }, .a[0] = { 1, { 2, 3 } }, .b.y[2] = 9, .n = "wxyz" }, sn_gds3[] = { [1 ... 3] = { .b.x = 4, .n = "ab", .a[0].y[0] = 8 }, [2].b.x = 5, [2].n[1] = 'q' }, sn_gds4 = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, "abcd" };)~"},
	{"sn_gst", R"~(static char sn_gst[] = "ab\0cd\x7f\377\n", sn_gst2[3] = "abc", sn_gst3[8] = "abc", sn_gst4[2][4] = { "ab", { 'c', 'e' } }, *sn_gst5[] = { "x", "yz" + 1, 0, &"hello"[2], "con" "cat" }; static int sn_gst6[] = L"w\x1234q", *sn_gst7 = L"ab"; static const char sn_gst8[][3] = { { "ab" }, "c", [3] = "d" };)~"},
	{"sn_gad", R"~(static int sn_gad[10], *sn_gad1 = sn_gad + 3, *sn_gad2 = &sn_gad[9] - 2, *sn_gad3[3] = { sn_gad, 1 + sn_gad, &*(sn_gad + 4) }; static long sn_gad4 = (long)4 * 3 - 1, sn_gad5 = sizeof(sn_gad) / sizeof *sn_gad; static char *sn_gad6 = (char *)&sn_gad[1] + 2, *sn_gad7 = (char *)sn_gad; static void *sn_gad8 = &sn_gad8; static struct sn_gads { int a, b[4]; struct sn_gads *n; } sn_gad9 = { 1, { 2, 3, 4, 5 }, &sn_gad9 }, sn_gada = { .n = &sn_gad9 }; static int *sn_gadb = &sn_gad9.b[2], *sn_gadc = sn_gad9.b + 1; static long sn_gadd = (long)&((struct sn_gads *)0)->b[2]; static char *sn_gade = (char *)&sn_gad9.n; static int *sn_gadf = 1 ? sn_gad + 2 : 0, *sn_gadg = 0 ? 0 : &sn_gad[5]; static _Bool sn_gadi = 0.25, sn_gadj = 256;)~"},
	{"sn_gfn", R"~(static long sn_gfn1(long x){ return x * 3 + 1; } static long sn_gfn2(long x){ return x - 7; } static long (*sn_gfn[4])(long) = { sn_gfn1, &sn_gfn2, *sn_gfn1, [3] = sn_gfn2 }; static struct { int k; long (*f)(long); } sn_gfnt[] = { { 1, sn_gfn2 }, { 2, sn_gfn1 } }; static long (**sn_gfnp)(long) = sn_gfn + 1;)~"},
	{"sn_gfl", R"~(static double sn_gfl = 1.5, sn_gfl2[] = { 1e10, -0.0, 1, 0x1.8p3, 3.0f, 0.3125, -7 / 2 }; static float sn_gfl3[3] = { 1.1, 16777217, -1e-3 }; static long sn_gfl4 = 7.98; static int sn_gfl5 = (int)-2.7f, sn_gfl6 = 4; static unsigned char sn_gfl7 = (unsigned char)200.0; static float sn_gfl8 = 1.1f; static double sn_gfl9 = 0.1f, sn_gfla = 1e300, sn_gflb = (float)0.1;)~"},
	{"sn_gnu", R"~(static struct { char a; struct { short b; char c[0]; } d; int e[]; } sn_gnu = { 1, { 2 }, { 3, 4, 5 } }; static struct __attribute__((packed)) { char a; int b; short c; long d; } sn_gnu2[2] = { { 1, 0x12345678, 3, -4 }, { .d = 5, .b = -6 } }; static struct { char a; int b __attribute__((aligned(16))); char c; } sn_gnu3[2] = { { 1, 2, 3 }, { 4, 5, 6 } }; static int sn_gnu4 __attribute__((aligned(64))) = 7; static enum { GN0, GN5 = 5, GN6, GNM = -3, GNM2 } sn_gnu5 = GN6, sn_gnu6[] = { GNM2, [GN5] = GN5 };)~"},
	{"sn_gte", R"~(static int sn_gte, sn_gte; extern int sn_gte2; static int sn_gte = 5; int sn_gte2 = 6; extern int sn_gte2; int sn_gte3; int sn_gte3; extern int sn_gte4[]; int sn_gte4[3] = { 1, 2 }; static int sn_gtef(void); static int sn_gtef2(void){ extern int sn_gte2; static int sn_gte2x = 3; { extern int sn_gte4[3]; sn_gte2x += sn_gte4[1]; } return sn_gtef() + sn_gte2 + sn_gte2x; } static int sn_gtef(void){ static int n; return ++n + sn_gte; })~"},
	{"sn_gtl", R"~(typedef int sn_gtl_t[3]; static const sn_gtl_t sn_gtl = { 1, 2, 3 }; static sn_gtl_t sn_gtl2[2] = { { 4 }, { 5, 6 } }; typedef long sn_gtl_f(int, sn_gtl_t); static sn_gtl_f sn_gtl3; static sn_gtl_f *sn_gtl4 = sn_gtl3; static long sn_gtl3(int n, sn_gtl_t p){ return p[n] * 2L + sizeof(sn_gtl_t); } typedef struct sn_gtl_s *sn_gtl_p; struct sn_gtl_s { sn_gtl_p n; int v; }; static struct sn_gtl_s sn_gtl5 = { &sn_gtl5, 8 };)~"},
	{"sn_gco", R"~(static long sn_gco = 1 ? 2 : 3, sn_gco2 = -1 > 0u, sn_gco3 = (unsigned char)-1 + 1, sn_gco4 = -5 / 2 * 10 + -5 % 3, sn_gco5 = -1L >> 3 | 1UL << 63 >> 60, sn_gco6 = !5 + ~7 + (3 && 0) + (0 || 9), sn_gco7 = sizeof(char[3]), sn_gco8 = 'ab' + '\xff' + L'\xff', sn_gco9 = 0x7fffffff + 1u, sn_gcoa = 0xffffffff + 1, sn_gcob = (signed char)200 * (short)70000, sn_gcoc = (_Bool)0.5 + (_Bool)256, sn_gcod = -2147483648 < 0, sn_gcoe = 4294967295u * 2, sn_gcof = __builtin_offsetof(struct { int a; long b[3]; }, b[2]), sn_gcog = (long)(char *)8 + (long)(int *)-1, sn_gcoh = (unsigned short)-1 << 12 >> 20, sn_gcoi = -1 >> 1u, sn_gcoj = 5u % -3 + 7 / 2u, sn_gcok = 1 ? -1 : 0u, sn_gcol = (char)(unsigned char)-56, sn_gcom = 010 + 0x10 + 3;)~"},
	{"sn_inr", R"~(static int sn_inr1(int n, int k){ if(n <= 1) return k; return sn_inr1(n - 1, k + n); } static int sn_inr2(int n, int k){ return n > 0 ? sn_inr2(n - 1, k ^ n) + k : k; } static long sn_inr3(int n, long k, int m); static long sn_inr4(int n, long k){ if(n <= 0) return k + 1; return sn_inr3(n - 1, k * 3, 7) - 1; } static long sn_inr3(int n, long k, int m){ return n <= 0 ? k - m : sn_inr4(n - 2, k + m); } static inline int sn_inr5(int n, int k){ if(!n) return k; return n & 1 ? sn_inr5(n >> 1, k ^ 5) + 1 : sn_inr5(n >> 1, k); } static inline void sn_inr6(int *p, int n, int k){ if(n <= 0) return; *p += k; sn_inr6(p, n - 1, 3); sn_inr6(p, n - 2, k + 1); } static inline int sn_inr7(int n, int k){ int l = k * 2; if(n <= 0) return l; k = sn_inr7(n - 1, 5); return k + l + sn_inr7(n - 3, l & 7); } static inline _Bool sn_inr8(unsigned n, int k){ return n ? k > 3 ? sn_inr8(n / 2, k - (n & 1)) : sn_inr8(n / 3, k + 2) : k & 1; } static inline int sn_inr(const char *s, int k){ return *s ? sn_inr(s + 1, k * 3 + *s) : k; })~"},
};
