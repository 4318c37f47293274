/* Calls of the integer geometry (spec/Prim.tla).  One command per line, one line of JSON per command:
 *   new
 *   <n> <op> <args...>     n = 1: outside of the documented range: runs in a child, may report an overflow
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <hob3lop/matq.h>

static cq_vec2if_t X[4096];
static int H;
static char *tok(void) { return strtok(NULL, " \n"); }
static cq_dim_t dim(void) { return (cq_dim_t)strtoll(tok(), NULL, 10); }
static cq_dimw_t dimw(void) { return (cq_dimw_t)strtoll(tok(), NULL, 10); }
static cq_udimw_t udimw(void) { return (cq_udimw_t)strtoull(tok(), NULL, 10); }
static cq_vec2_t pt(void) { cq_vec2_t p; p.x = dim(); p.y = dim(); return p; }
static void rat(cq_dimif_t const *x) { printf("[%lld,%llu,%llu]", (long long)x->i, (unsigned long long)x->n, (unsigned long long)x->d); }

static void call(char const *op)
{
    if (!strcmp(op, "cross")) {
        cq_vec2_t a = pt(), o = pt(), b = pt();
        long long r = cq_vec2_right_cross3_z(&a, &o, &b), s = cq_right_cross3_z(a.x, a.y, o.x, o.y, b.x, b.y);
        long long c = cq_cross_z(cq_dim_sub(a.x, o.x), cq_dim_sub(a.y, o.y), cq_dim_sub(b.x, o.x), cq_dim_sub(b.y, o.y));
        printf("[%lld,%lld,%lld]\n", r, s, c);
    }
    else if (!strcmp(op, "sqd")) {
        cq_vec2_t a = pt(), b = pt();
        cq_line2_t l = CQ_LINE2(a, b);
        cq_vec2_t d = CQ_VEC2(cq_dim_sub(a.x, b.x), cq_dim_sub(a.y, b.y));
        printf("[%lld,%lld,%lld]\n", (long long)cq_vec2_sqr_dist(&a, &b), (long long)cq_line2_sqr_len(&l), (long long)cq_vec2_sqr_len(&d));
    }
    else if (!strcmp(op, "meet")) {
        cq_vec2_t p = pt(), q = pt(), r = pt(), s = pt();
        cq_vec2if_t i; memset(&i, 0, sizeof(i));
        int k = cq_vec2if_intersect(&i, p, q, r, s);
        cq_line2_t l1 = CQ_LINE2(p, q), l2 = CQ_LINE2(r, s);
        cq_vec2if_t j; memset(&j, 0, sizeof(j));
        int k2 = cq_line2if_intersect(&j, &l1, &l2);
        if (k != k2) { printf("[\"two answers\"]\n"); return; }
        if (k > 0) X[H] = i;
        printf("[%d", k);
        if (k > 0) {
            printf(","); rat(&i.x); printf(","); rat(&i.y); printf(","); rat(&j.x); printf(","); rat(&j.y);
            printf(",%.17g,%.17g", cq_f_from_dimif(&i.x), cq_f_from_dimif(&i.y));
            cq_vec2_t v = { 0 };
            int k3 = cq_vec2_intersect(&v, p, q, r, s);
            printf(",%d,%lld,%lld", k3, (long long)v.x, (long long)v.y);
        }
        printf("]\n");
    }
    else if (!strcmp(op, "edge")) {
        cq_vec2_t v = pt(), l = pt(), k = pt();
        cq_line2_t e = CQ_LINE2(k, l);
        printf("[%d,%d,%d]\n", cq_cmp_edge_rnd(v.x, v.y, l.x, l.y, k.x, k.y), cq_vec2_cmp_edge_rnd(&v, &l, &k), cq_vec2_cmp_line2_rnd(&v, &e));
    }
    else if (!strcmp(op, "cmp")) {
        cq_vec2if_t *a = &X[atoi(tok())], *b = &X[atoi(tok())];
        printf("[%d,%d,%d,%d,%d,%d]\n", cq_dimif_cmp(&a->x, &b->x), cq_dimif_cmp(&a->y, &b->y), cq_vec2if_cmp(a, b),
            cq_dimif_eq(&a->x, &b->x), cq_dimif_eq(&a->y, &b->y), cq_vec2if_eq(a, b));
    }
    else if (!strcmp(op, "round")) {
        cq_vec2if_t *a = &X[atoi(tok())];
        printf("[%lld,%lld]\n", (long long)cq_round(&a->x), (long long)cq_round(&a->y));
    }
    else if (!strcmp(op, "pcmp")) {
        cq_vec2_t p = pt(); cq_vec2if_t *a = &X[atoi(tok())];
        cq_vec2if_t w = cq_vec2if_from_vec2(&p);
        printf("[%d,%d,%d,%d]\n", cq_dim_dimif_cmp(p.x, &a->x), cq_dim_dimif_cmp(p.y, &a->y), cq_vec2_vec2if_cmp(&p, a), cq_vec2if_cmp(&w, a));
    }
    else if (!strcmp(op, "div")) {
        cq_dim_t x = dim(), d = dim();
        cq_divmod_t r = cq_divmod(x, d);
        printf("[%lld,%lld,%lld,%lld]\n", (long long)r.div, (long long)r.mod, (long long)cq_div(x, d), (long long)cq_mod(x, d));
    }
    else if (!strcmp(op, "divw")) {
        cq_dimw_t x = dimw(), d = dimw();
        cq_divmodw_t r = cq_divmodw(x, d);
        printf("[%lld,%lld,%lld,%lld]\n", (long long)r.div, (long long)r.mod, (long long)cq_divw(x, d), (long long)cq_modw(x, d));
    }
    else if (!strcmp(op, "divx")) {
        cq_dimw_t x = dimw(); cq_dim_t d = dim();
        cq_divmod_t r = cq_divmodx(x, d);
        printf("[%lld,%lld,%lld,%lld]\n", (long long)r.div, (long long)r.mod, (long long)cq_divx(x, d), (long long)cq_modx(x, d));
    }
    else if (!strcmp(op, "divr")) {
        cq_dimw_t x = dimw(), d = dimw();
        printf("[%lld]\n", (long long)cq_divw_rnd(x, d));
    }
    else if (!strcmp(op, "mul")) {
        cq_udimw_t a = udimw(), b = udimw();
        cq_udimq_t r = cq_udimw_mul(a, b), s = cq_udimw_mul_aux(a, b), t = cq_udimq(cq_udimq_max(r), cq_udimq_min(r));
        printf("[%llu,%llu,%llu,%llu,%d,%d]\n", (unsigned long long)cq_udimq_max(r), (unsigned long long)cq_udimq_min(r),
            (unsigned long long)cq_udimq_max(s), (unsigned long long)cq_udimq_min(s), cq_udimq_cmp(r, t), cq_udimq_eq(s, t));
    }
    else if (!strcmp(op, "frac")) {
        cq_dimif_t a = { .i = 0 }, b = { .i = 0 };
        a.n = udimw(); a.d = udimw(); b.n = udimw(); b.d = udimw();
        printf("[%d,%d,%d,%d]\n", cq_dimif_cmp_frac(&a, &b), cq_dimif_cmp_frac_aux(&a, &b), cq_dimif_cmp_frac(&b, &a), cq_dimif_cmp_frac_aux(&b, &a));
    }
    else printf("[\"unknown\"]\n");
}

int main(void)
{
    static char line[4096];
    while (fgets(line, sizeof(line), stdin)) {
        char *n = strtok(line, " \n");
        if (!n) continue;
        if (!strcmp(n, "new")) { H = 0; continue; }
        H++;
        char *op = tok();
        if (*n == '0') { call(op); fflush(stdout); continue; }
        int fd[2];
        fflush(stdout);
        if (pipe(fd)) return 9;
        pid_t p = fork();
        if (p == 0) {
            dup2(fd[1], 2); close(fd[0]); close(fd[1]);
            call(op); fflush(stdout);
            _exit(0);
        }
        close(fd[1]);
        char msg[2048]; size_t k = 0; ssize_t g;
        while (k < sizeof(msg) - 1 && (g = read(fd[0], msg + k, sizeof(msg) - 1 - k)) > 0) k += (size_t)g;
        msg[k] = 0;
        close(fd[0]);
        int st; waitpid(p, &st, 0);
        if (st) printf("[\"%s\"]\n", strstr(msg, "numeric overflow") || strstr(msg, "overflow in") || strstr(msg, "division by zero") ? "overflow" : "abort");
        fflush(stdout);
    }
    return 0;
}
