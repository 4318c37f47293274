/* Drives the polygon library: reads cases (integers) from stdin, one per line, and
 * writes one JSON line per case.  Each case runs in a child process of its own.
 *   scale groups { nops tab[2^nops] nedges { member x1 y1 x2 y2 }* }* ftab[2^groups]
 * A single group is swept directly (no ftab); several groups are swept and reduced
 * one by one, and their results are combined in another sweep. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <hob3lop/gon.h>
#include <hob3lop/op-sweep.h>
#include <hob3lop/op-poly.h>
#include <hob3lop/op-trianglify.h>

static char *cur;
static long num(void) { char *e; long r = strtol(cur, &e, 10); if (e == cur) { fprintf(stderr, "bad case\n"); exit(3); } cur = e; return r; }

static void put_lines(char const *name, cq_sweep_t *s)
{
    cq_v_line2_t *r = CP_NEW(*r);
    cp_v_init0(r, 0);
    cq_sweep_get_v_line2(r, s);
    printf("\"%s\":[", name);
    for (size_t i = 0; i < r->size; i++) {
        cq_line2_t *l = &cp_v_nth(r, i);
        printf("%s[%d,%d,%d,%d]", i ? "," : "", l->a.x, l->a.y, l->b.x, l->b.y);
    }
    printf("],\"%s_x\":%d,", name, cq_has_intersect(NULL, NULL, NULL, r));
}

static long lim = 0;
static cq_sweep_t *group(cp_pool_t *pool, long scale, bool show)
{
    long nops = num();
    cp_bool_bitmap_t comb;
    memset(&comb, 0, sizeof(comb));
    for (long i = 0; i < (1L << nops); i++) { cp_bool_bitmap_set(&comb, i, num() != 0); }
    cq_sweep_t *s = cq_sweep_new(pool, NULL, 0);
    long n = num();
    for (long i = 0; i < n; i++) {
        size_t m = (size_t)num();
        cq_vec2_t a, b;
        a.x = (int)(num() * scale); a.y = (int)(num() * scale);
        b.x = (int)(num() * scale); b.y = (int)(num() * scale);
        cq_sweep_add_edge(s, &a, &b, m);
    }
    cq_sweep_intersect(s);
    if (show) { put_lines("arr", s); }
    cq_sweep_reduce(s, &comb, (size_t)1 << nops);
    return s;
}

static void one(char *line)
{
    cp_pool_t pool[1];
    cp_pool_init(pool);
    cq_dim_scale = 1;
    cur = line;
    long scale = num(), groups = num();
    cq_sweep_t *s;
    printf("{");
    if (groups == 1) {
        s = group(pool, scale, true);
    }
    else {
        cq_sweep_t *g[16];
        for (long i = 0; i < groups; i++) { g[i] = group(pool, scale, false); }
        s = cq_sweep_new(pool, NULL, 0);
        for (long i = 0; i < groups; i++) { cq_sweep_add_sweep(s, g[i], (size_t)1 << i); cq_sweep_delete(g[i]); }
        cp_bool_bitmap_t comb;
        memset(&comb, 0, sizeof(comb));
        for (long i = 0; i < (1L << groups); i++) { cp_bool_bitmap_set(&comb, i, num() != 0); }
        cq_sweep_intersect(s);
        put_lines("arr", s);
        cq_sweep_reduce(s, &comb, (size_t)1 << groups);
    }
    put_lines("red", s);
    printf("\"empty\":%d,", cq_sweep_empty(s));

    cp_err_t err[1] = {};
    cq_csg2_poly_t *p = CP_CLONE1(&CQ_CSG2_POLY_INIT);
    bool ok = cq_sweep_poly(err, s, p);
    printf("\"polyok\":%d,\"path\":[", ok);
    for (size_t i = 0; i < p->path.size; i++) {
        printf("%s[", i ? "," : "");
        cp_v_size_t *x = &p->path.data[i].point_idx;
        for (size_t j = 0; j < x->size; j++) {
            cp_vec2_t *c = &p->point.data[x->data[j]].coord;
            printf("%s%.17g,%.17g", j ? "," : "", c->x, c->y);
        }
        printf("]");
    }
    printf("],\"ppt\":%zu,", p->point.size);

    *err = (cp_err_t){};
    cq_csg2_poly_t *t = CP_CLONE1(&CQ_CSG2_POLY_INIT);
    ok = cq_sweep_trianglify(err, s, t);
    printf("\"triok\":%d,\"tri\":[", ok);
    for (size_t i = 0; i < t->tri.size; i++) {
        printf("%s[", i ? "," : "");
        for (int k = 0; k < 3; k++) {
            cp_vec2_t *c = &t->point.data[t->tri.data[i].p[k]].coord;
            printf("%.17g,%.17g,", c->x, c->y);
        }
        printf("%d]", (int)t->tri.data[i].flags);
    }
    printf("],\"tpt\":%zu}\n", t->point.size);
    cq_sweep_delete(s);
    fflush(stdout);
}

int main(void)
{
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        int fd[2];
        if (pipe(fd)) { return 3; }
        pid_t c = fork();
        if (c == 0) {
            close(fd[0]);
            dup2(fd[1], 1);
            fclose(stderr);
            alarm(20);
            one(line);
            fflush(stdout);
            _exit(0);
        }
        close(fd[1]);
        FILE *f = fdopen(fd[0], "r");
        static char buf[1 << 16];
        size_t n, tot = 0; char last = 0;
        char *all = NULL;
        while ((n = fread(buf, 1, sizeof(buf), f)) > 0) { all = realloc(all, tot + n); memcpy(all + tot, buf, n); tot += n; last = all[tot - 1]; }
        fclose(f);
        int st;
        waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || last != '\n') {
            if (WIFSIGNALED(st)) { printf("{\"crash\":\"signal %d\"}\n", WTERMSIG(st)); }
            else { printf("{\"crash\":\"exit %d\"}\n", WEXITSTATUS(st)); }
        }
        else { fwrite(all, 1, tot, stdout); }
        fflush(stdout);
        free(all);
    }
    return 0;
}
