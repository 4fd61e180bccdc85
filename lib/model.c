// Library functions the executor does not model itself, in terms of ones it does (linked into the encoding only).
double sin(double), cos(double), exp(double), sqrt(double), atan2(double, double), log(double), floor(double), ceil(double), trunc(double);
typedef double _Complex C;
static C mk(double r, double i) { return __builtin_complex(r, i); }
C cexp(C z) { double e = exp(__real__ z); return mk(e * cos(__imag__ z), e * sin(__imag__ z)); }
C __muldc3(double a, double b, double c, double d) { return mk(a * c - b * d, a * d + b * c); }
C __divdc3(double a, double b, double c, double d) { double q = c * c + d * d; return mk((a * c + b * d) / q, (b * c - a * d) / q); }
double cabs(C z) { return sqrt(__real__ z * __real__ z + __imag__ z * __imag__ z); }
double carg(C z) { return atan2(__imag__ z, __real__ z); }
void sincos(double x, double *s, double *c) { *s = sin(x); *c = cos(x); }
double modf(double x, double *i) { *i = trunc(x); return x - *i; }
double fdim(double a, double b) { return a > b ? a - b : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, unsigned long n) { unsigned long i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)); return r; }
extern void *malloc(unsigned long);
char *strdup(const char *s) { unsigned long n = 0; while (s[n]) n++; char *p = malloc(n + 1); for (unsigned long i = 0; i <= n; i++) p[i] = s[i]; return p; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, unsigned long n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
void *memchr(const void *p, int c, unsigned long n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
// Search trees, linked lists and hash tables of the C++ library (the trees need no balance to be right).
typedef struct N { int color; struct N *up, *l, *r; } N;
N *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(N *x) { if (x->r) { x = x->r; while (x->l) x = x->l; return x; } N *y = x->up; while (x == y->r) x = y, y = y->up; return x->r != y ? y : x; }
N *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(N *x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
N *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(N *x) { if (x->color == 0 && x->up->up == x) return x->r; if (x->l) { x = x->l; while (x->r) x = x->r; return x; } N *y = x->up; while (x == y->l) x = y, y = y->up; return y; }
N *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(N *x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(_Bool left, N *x, N *p, N *h) { x->up = p; x->l = x->r = 0; x->color = 1; if (left) { p->l = x; if (p == h) h->up = h->r = x; else if (p == h->l) h->l = x; } else { p->r = x; if (p == h->r) h->r = x; } }
N *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(N *z, N *h) {
    N *next = z, *c; if (h->l == z) { if (z->r) { next = z->r; while (next->l) next = next->l; h->l = next; } else h->l = z->up; } if (h->r == z) { if (z->l) { next = z->l; while (next->r) next = next->r; h->r = next; } else h->r = z->up; }
    if (z->l && z->r) { N *y = z->r; while (y->l) y = y->l; if (y != z->r) { y->up->l = y->r; if (y->r) y->r->up = y->up; y->r = z->r; z->r->up = y; } y->l = z->l; z->l->up = y; c = y; } else c = z->l ? z->l : z->r;
    if (c) c->up = z->up; if (h->up == z) h->up = c; else if (z->up->l == z) z->up->l = c; else z->up->r = c; return z;
}
typedef struct L { struct L *n, *p; } L;
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(L *t, L *p) { t->n = p; t->p = p->p; p->p->n = t; p->p = t; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(L *t) { t->p->n = t->n; t->n->p = t->p; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(L *t, L *f, L *l) { if (t == l) return; l->p->n = t; f->p->n = l; t->p->n = f; L *q = t->p; t->p = l->p; l->p = f->p; f->p = q; }
void _ZNSt8__detail15_List_node_base10_M_reverseEv(L *t) { L *q = t; do { L *n = q->n; q->n = q->p; q->p = n; q = n; } while (q != t); }
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(L *a, L *b) { L x = *a, y = *b; int ea = x.n == a, eb = y.n == b; if (eb) b->n = b->p = b; if (!ea) { b->n = x.n; b->p = x.p; x.n->p = x.p->n = b; } else b->n = b->p = b; if (!eb) { a->n = y.n; a->p = y.p; y.n->p = y.p->n = a; } else a->n = a->p = a; }
typedef struct { float load; unsigned long next; } H; typedef struct { _Bool b; unsigned long n; } BN;
unsigned long _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(H *h, unsigned long n) { unsigned long b = 13; while (b < n) b = 2 * b + 3; h->next = (unsigned long)((double)b * h->load); return b; }
BN _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(H *h, unsigned long b, unsigned long e, unsigned long i) { BN r = {0, 0}; if (e + i > h->next) { double m = (double)(e + i) / h->load; if (m >= b) { r.b = 1; unsigned long w = (unsigned long)m + 1; r.n = _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(h, w > 2 * b ? w : 2 * b); } else h->next = (unsigned long)((double)b * h->load); } return r; }
unsigned long _ZSt11_Hash_bytesPKvmm(const void *p, unsigned long n, unsigned long s) { const unsigned char *q = p; unsigned long h = 14695981039346656037ul ^ s; for (; n; n--, q++) h = (h ^ *q) * 1099511628211ul; return h; }
double frexp(double x, int *e) { *e = 0; if (x == 0) return x; double a = x < 0 ? -x : x; while (a >= 1) a /= 2, x /= 2, ++*e; while (a < 0.5) a *= 2, x *= 2, --*e; return x; }
int ilogb(double x) { int e; frexp(x, &e); return e - 1; }
double logb(double x) { return ilogb(x); }
