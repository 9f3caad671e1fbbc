/* Integer-tightened Fourier-Motzkin elimination: is a conjunction of linear inequalities infeasible?
   Sound "yes" (1), incomplete "no" (0). Exact arithmetic on 128-bit integers; any overflow answers "no". */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef __int128 I;
#define MAXV 96
#define MAXR 700

typedef struct { I k; int64_t c[MAXV]; uint64_t h; } Row;

static uint64_t hashrow(const Row *r, int n) {
    uint64_t h = 1469598103934665603ULL;
    for (int i = 0; i < n; i++) { h ^= (uint64_t)r->c[i]; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
}

static int64_t gcd64(int64_t a, int64_t b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { int64_t t = a % b; a = b; b = t; } return a; }

static I floordiv(I a, int64_t b) { I q = a / b; if (a % b != 0 && a < 0) q--; return q; }

/* 1: contradiction, -1: trivially true, 0: ok */
static int norm(Row *r, int n) {
    int64_t g = 0;
    for (int i = 0; i < n; i++) if (r->c[i]) { g = gcd64(g, r->c[i]); if (g == 1) break; }
    if (g == 0) return r->k < 0 ? 1 : -1;
    if (g > 1) { for (int i = 0; i < n; i++) r->c[i] /= g; r->k = floordiv(r->k, g); }
    r->h = hashrow(r, n);
    return 0;
}

static int addrow(Row *rows, int m, const Row *r, int n, int *tab, int tabsz) {
    uint64_t p = r->h & (tabsz - 1);
    while (tab[p] >= 0) {
        Row *o = &rows[tab[p]];
        if (o->h == r->h && memcmp(o->c, r->c, n * sizeof(int64_t)) == 0) {
            if (r->k < o->k) o->k = r->k;
            return m;
        }
        p = (p + 1) & (tabsz - 1);
    }
    tab[p] = m;
    rows[m] = *r;
    return m + 1;
}

static int combine(const Row *p, const Row *q, int64_t a, int64_t b, int n, Row *o) {
    /* o = b*p + a*q */
    for (int i = 0; i < n; i++) {
        I x = (I)p->c[i] * b + (I)q->c[i] * a;
        if (x > INT64_MAX / 4 || x < INT64_MIN / 4) return -2;
        o->c[i] = (int64_t)x;
    }
    I x, y, z;
    if (__builtin_mul_overflow(p->k, (I)b, &x)) return -2;
    if (__builtin_mul_overflow(q->k, (I)a, &y)) return -2;
    if (__builtin_add_overflow(x, y, &z)) return -2;
    o->k = z;
    return norm(o, n);
}

#define TAB 2048

int fm_infeasible(int m0, int n, const int32_t *rowlen, const int32_t *cols, const int64_t *coefs,
                  const int64_t *klo, const int64_t *khi) {
    if (n > MAXV || m0 > MAXR) return 0;
    Row *A = malloc(sizeof(Row) * (MAXR + 8)), *B = malloc(sizeof(Row) * (MAXR + 8));
    int *tab = malloc(sizeof(int) * TAB);
    int res = 0, m = 0;
    memset(tab, 0xff, sizeof(int) * TAB);
    int pos = 0;
    for (int i = 0; i < m0; i++) {
        Row r;
        memset(r.c, 0, sizeof(int64_t) * n);
        for (int j = 0; j < rowlen[i]; j++, pos++) r.c[cols[pos]] += coefs[pos];
        r.k = ((I)khi[i] << 64) | (uint64_t)klo[i];
        int s = norm(&r, n);
        if (s == 1) { res = 1; goto done; }
        if (s == -1) continue;
        m = addrow(A, m, &r, n, tab, TAB);
    }
    for (int steps = 0; steps < MAXV + 4; steps++) {
        if (m == 0) goto done;
        /* opposite rows: contradiction or equality */
        int eqi = -1, eqv = -1;
        for (int i = 0; i < m; i++) {
            Row ng;
            for (int j = 0; j < n; j++) ng.c[j] = -A[i].c[j];
            ng.h = hashrow(&ng, n);
            uint64_t p = ng.h & (TAB - 1);
            while (tab[p] >= 0) {
                Row *o = &A[tab[p]];
                if (o->h == ng.h && memcmp(o->c, ng.c, n * sizeof(int64_t)) == 0) {
                    I s = A[i].k + o->k;
                    if (s < 0) { res = 1; goto done; }
                    if (s == 0 && eqi < 0)
                        for (int j = 0; j < n; j++) if (A[i].c[j] == 1 || A[i].c[j] == -1) { eqi = i; eqv = j; break; }
                    break;
                }
                p = (p + 1) & (TAB - 1);
            }
        }
        int mb = 0;
        memset(tab, 0xff, sizeof(int) * TAB);
        if (eqi >= 0) {
            /* substitute by the equality A[eqi] == 0 on variable eqv */
            Row e = A[eqi], ne = A[eqi];
            for (int j = 0; j < n; j++) ne.c[j] = -e.c[j];
            ne.k = -e.k;
            for (int i = 0; i < m; i++) {
                int64_t c = A[i].c[eqv];
                Row o;
                int s;
                if (c == 0) { mb = addrow(B, mb, &A[i], n, tab, TAB); continue; }
                const Row *w = (c > 0) == (e.c[eqv] > 0) ? &ne : &e;
                s = combine(&A[i], w, c > 0 ? c : -c, 1, n, &o);
                if (s == 1) { res = 1; goto done; }
                if (s == -2) goto done;
                if (s == 0) mb = addrow(B, mb, &o, n, tab, TAB);
            }
        } else {
            int best = -1, bc = 0;
            for (int j = 0; j < n; j++) {
                int p = 0, q = 0;
                for (int i = 0; i < m; i++) { if (A[i].c[j] > 0) p++; else if (A[i].c[j] < 0) q++; }
                if (p + q == 0) continue;
                int c = p * q - p - q;
                if (best < 0 || c < bc) { best = j; bc = c; }
            }
            int np = 0, nq = 0;
            for (int i = 0; i < m; i++) { if (A[i].c[best] > 0) np++; else if (A[i].c[best] < 0) nq++; }
            if ((long)np * nq > 400) goto done;
            for (int i = 0; i < m; i++) if (A[i].c[best] == 0) mb = addrow(B, mb, &A[i], n, tab, TAB);
            for (int i = 0; i < m; i++) {
                if (A[i].c[best] <= 0) continue;
                for (int j = 0; j < m; j++) {
                    if (A[j].c[best] >= 0) continue;
                    int64_t a = A[i].c[best], b = -A[j].c[best], g = gcd64(a, b);
                    Row o;
                    int s = combine(&A[i], &A[j], a / g, b / g, n, &o);
                    if (s == 1) { res = 1; goto done; }
                    if (s == -2) goto done;
                    if (s == 0) mb = addrow(B, mb, &o, n, tab, TAB);
                    if (mb > MAXR - 2) goto done;
                }
            }
            if (mb > 500) goto done;
        }
        Row *t = A; A = B; B = t;
        m = mb;
    }
done:
    free(A); free(B); free(tab);
    return res;
}

/* Query against an encoded system: rows 0..m0-1 over variables 0..n-1, ranges for n+x variables,
   extra row given sparsely. Only rows connected to the extra row take part. */
int fm_query(int m0, int n, const int32_t *start, const int32_t *cols, const int64_t *coefs,
             const int64_t *klo, const int64_t *khi,
             int nx, const int32_t *hasr, const int64_t *rlo, const int64_t *rlohi, const int64_t *rhi, const int64_t *rhihi,
             int xl, const int32_t *xcols, const int64_t *xcoefs, int64_t xklo, int64_t xkhi,
             const int32_t *hasr2, const int64_t *r2) {
    int nv = n + nx;
    if (nv > 4000 || m0 > 4000) return 0;
    int32_t *map = malloc(sizeof(int32_t) * (nv + 1));
    char *use = calloc(m0 + 1, 1);
    int res = 0, cnt = 0;
    for (int i = 0; i < nv; i++) map[i] = -1;
    for (int i = 0; i < xl; i++) if (map[xcols[i]] < 0) map[xcols[i]] = cnt++;
    int nr = 0, changed = 1, rounds = 0, tot = 0;
    while (changed && rounds < 6 && nr <= 60) {
        changed = 0; rounds++;
        int base = cnt;
        (void)base;
        for (int r = 0; r < m0; r++) {
            if (use[r]) continue;
            int hit = 0;
            for (int j = start[r]; j < start[r + 1]; j++) if (map[cols[j]] >= 0) { hit = 1; break; }
            if (!hit) continue;
            use[r] = 1; nr++; tot += start[r + 1] - start[r];
            for (int j = start[r]; j < start[r + 1]; j++) if (map[cols[j]] < 0) { map[cols[j]] = cnt++; changed = 1; }
        }
    }
    if (cnt > MAXV) goto out;
    {
        int cap = nr + 1 + 2 * cnt, tcap = tot + xl + 2 * cnt;
        int32_t *rl = malloc(sizeof(int32_t) * cap), *cc = malloc(sizeof(int32_t) * (tcap + 1));
        int64_t *cf = malloc(sizeof(int64_t) * (tcap + 1)), *kl = malloc(sizeof(int64_t) * cap), *kh = malloc(sizeof(int64_t) * cap);
        int m = 0, p = 0;
        for (int r = 0; r < m0; r++) if (use[r]) {
            rl[m] = start[r + 1] - start[r]; kl[m] = klo[r]; kh[m] = khi[r]; m++;
            for (int j = start[r]; j < start[r + 1]; j++) { cc[p] = map[cols[j]]; cf[p] = coefs[j]; p++; }
        }
        rl[m] = xl; kl[m] = xklo; kh[m] = xkhi; m++;
        for (int j = 0; j < xl; j++) { cc[p] = map[xcols[j]]; cf[p] = xcoefs[j]; p++; }
        for (int v = 0; v < nv; v++) if (map[v] >= 0) {
            int64_t a, b, c, d;
            if (v < n) { if (!hasr[v]) continue; a = rlo[v]; b = rlohi[v]; c = rhi[v]; d = rhihi[v]; }
            else { if (!hasr2[v - n]) continue; a = r2[4 * (v - n)]; b = r2[4 * (v - n) + 1]; c = r2[4 * (v - n) + 2]; d = r2[4 * (v - n) + 3]; }
            /* v - lo >= 0 ; hi - v >= 0  (a,b hold -lo) */
            rl[m] = 1; kl[m] = a; kh[m] = b; m++; cc[p] = map[v]; cf[p] = 1; p++;
            rl[m] = 1; kl[m] = c; kh[m] = d; m++; cc[p] = map[v]; cf[p] = -1; p++;
        }
        res = fm_infeasible(m, cnt, rl, cc, cf, kl, kh);
        free(rl); free(cc); free(cf); free(kl); free(kh);
    }
out:
    free(map); free(use);
    return res;
}
