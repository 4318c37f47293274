/* The matrix library as a register machine (spec/Mat.tla).  One command per line, one line of JSON per command:
 *   new
 *   put <kind> <t> <r> <numbers>            contents of a register (of a type with inverse: matrix, inverse, determinant)
 *   <kind> <op> <t> <s> <r> <a> <b> <n> <numbers>
 * A number is n/d.  The answer: "f" what the call returned, "x" the contents of register r afterwards (a matrix: by rows, the
 * translation vector last), "i" and "d": inverse and determinant.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <hob3lmat/mat.h>
#include <hob3lmat/mat_is_rot.h>

#define TYPES(X) X(mat2) X(mat2w) X(mat3) X(mat3w) X(mat4)
#define TYPESI(X) X(mat2i,mat2) X(mat2wi,mat2w) X(mat3i,mat3) X(mat3wi,mat3w) X(mat4i,mat4)
#define ALL(X) X(mat2) X(mat2w) X(mat3) X(mat3w) X(mat4) X(mat2i) X(mat2wi) X(mat3i) X(mat3wi) X(mat4i)
static cp_mat2_t R_mat2[2]; static cp_mat2w_t R_mat2w[2]; static cp_mat3_t R_mat3[2]; static cp_mat3w_t R_mat3w[2]; static cp_mat4_t R_mat4[2];
static cp_mat2i_t R_mat2i[2]; static cp_mat2wi_t R_mat2wi[2]; static cp_mat3i_t R_mat3i[2]; static cp_mat3wi_t R_mat3wi[2]; static cp_mat4i_t R_mat4i[2];
static cp_vec2_t V2[3]; static cp_vec3_t V3[3]; static cp_vec4_t V4[3];
static cp_vec2_minmax_t B2[2]; static cp_vec3_minmax_t B3[2]; static cp_vec4_minmax_t B4[2];

static double N[64]; static int n;
static char *tok(void) { return strtok(NULL, " \n"); }
static void numbers(void)
{
    char *t;
    for (n = 0; n < 64 && (t = tok()); n++) {
        char *e; double p = strtod(t, &e);
        N[n] = *e == '/' ? p / strtod(e + 1, NULL) : p;
    }
}
static int nf; static double F[512];
static void ret(double x) { F[nf++] = x; }
static void list(char const *name, double const *v, int c)
{
    printf("\"%s\":[", name);
    for (int i = 0; i < c; i++) {
        if (i) printf(",");
        if (isfinite(v[i])) printf("%.17g", v[i]); else printf("%s", v[i] > 0 ? "1e999" : v[i] < 0 ? "-1e999" : "NaN");
    }
    printf("]");
}
static void show(char const *kind, char const *t, int r)
{
    printf("{"); list("f", F, nf);
    if (kind[0] == 'm') {
#define X(T) if (!strcmp(t, #T)) { printf(","); list("x", R_##T[r].v, sizeof(R_##T[r].v) / sizeof(double)); }
        TYPES(X)
#undef X
#define X(T,P) if (!strcmp(t, #T)) { int c = sizeof(R_##P[r].v) / sizeof(double); printf(","); list("x", R_##T[r].n.v, c); printf(","); list("i", R_##T[r].i.v, c); printf(","); list("d", &R_##T[r].d, 1); }
        TYPESI(X)
#undef X
    }
    int d = t[3] - '0';
    if (kind[0] == 'v') { printf(","); list("x", d == 2 ? V2[r].v : d == 3 ? V3[r].v : V4[r].v, d); }
    if (kind[0] == 'b') { printf(","); list("x", d == 2 ? B2[r].min.v : d == 3 ? B3[r].min.v : B4[r].min.v, d); printf(","); list("i", d == 2 ? B2[r].max.v : d == 3 ? B3[r].max.v : B4[r].max.v, d); }
    printf("}\n");
}
static void fresh(void)
{
    for (int i = 0; i < 2; i++) {
#define X(T) cp_##T##_unit(&R_##T[i]);
        ALL(X)
#undef X
        B2[i] = (cp_vec2_minmax_t)CP_VEC2_MINMAX_EMPTY; B3[i] = (cp_vec3_minmax_t)CP_VEC3_MINMAX_EMPTY; B4[i] = (cp_vec4_minmax_t)CP_VEC4_MINMAX_EMPTY;
    }
    memset(V2, 0, sizeof V2); memset(V3, 0, sizeof V3); memset(V4, 0, sizeof V4);
}
static void put(char const *kind, char const *t, int r)
{
    int d = t[3] - '0';
    if (kind[0] == 'v') memcpy(d == 2 ? V2[r].v : d == 3 ? V3[r].v : V4[r].v, N, d * sizeof(double));
#define X(T) if (!strcmp(t, #T)) memcpy(R_##T[r].v, N, sizeof(R_##T[r].v));
    TYPES(X)
#undef X
#define X(T,P) if (!strcmp(t, #T)) { int c = sizeof(R_##P[r].v) / sizeof(double); memcpy(R_##T[r].n.v, N, c * sizeof(double)); memcpy(R_##T[r].i.v, N + c, c * sizeof(double)); R_##T[r].d = N[2 * c]; }
    TYPESI(X)
#undef X
}

#define OP(s) (!strcmp(op, s))
static int matop(char const *op, char const *t, char const *s, int r, int a, int b)
{
    cp_vec2_t v2 = {{ N[0], N[1] }}, sc2 = {{ N[2], N[3] }}, sc3 = {{ N[3], N[4] }};
    cp_vec3_t v3 = {{ N[0], N[1], N[2] }};
#define IS(T) (!strcmp(t, #T))
    if (OP("conv")) {
#define C(D,S,K) if (IS(D) && !strcmp(s, #S)) { K(cp_##D##_from_##S(&R_##D[r], &R_##S[a])); return 1; }
#define V(x) x
        C(mat3w,mat4,ret) C(mat2w,mat3,ret) C(mat2w,mat3w,ret) C(mat4,mat3w,V) C(mat3,mat2w,V) C(mat3w,mat2w,V)
        C(mat3wi,mat4i,ret) C(mat2wi,mat3i,ret) C(mat2wi,mat3wi,ret) C(mat4i,mat3wi,V) C(mat3i,mat2wi,V) C(mat3wi,mat2wi,V)
        C(mat2i,mat2,ret) C(mat3i,mat3,ret) C(mat4i,mat4,ret) C(mat2wi,mat2w,ret) C(mat3wi,mat3w,ret)
        return 0;
    }
#define X(T) if (IS(T)) { cp_##T##_t *x = &R_##T[r], *p = &R_##T[a], *q = &R_##T[b]; \
        if (OP("unit")) { cp_##T##_unit(x); return 1; } \
        if (OP("scale1")) { cp_##T##_scale1(x, N[0]); return 1; } \
        if (OP("mul")) { cp_##T##_mul(x, p, q); return 1; } \
        if (OP("lex_cmp")) { ret(cp_##T##_lex_cmp(p, q)); ret(cp_##T##_eq(p, q)); return 1; } \
        if (OP("det")) { ret(cp_##T##_det(p)); return 1; } }
    ALL(X)
#undef X
#define X(T) if (IS(T) && OP("trans")) { ret(cp_##T##_trans(&R_##T[r], &R_##T[a])); return 1; }
    X(mat2w) X(mat3w) X(mat2wi) X(mat3wi)
#undef X
#define X(T) if (IS(T) && OP("trans")) { cp_##T##_trans(&R_##T[r], &R_##T[a]); return 1; }
    X(mat2) X(mat3) X(mat4) X(mat2i) X(mat3i) X(mat4i)
#undef X
#define X(T) if (IS(T) && OP("inv")) { ret(cp_##T##_inv(&R_##T[r], &R_##T[a])); return 1; }
    TYPES(X)
#undef X
#define X(T,P) if (IS(T) && OP("inv")) { cp_##T##_inv(&R_##T[r], &R_##T[a]); return 1; }
    TYPESI(X)
#undef X
#define X2(T) if (IS(T)) { cp_##T##_t *x = &R_##T[r]; \
        if (OP("scale")) { cp_##T##_scale(x, N[0], N[1]); return 1; } \
        if (OP("scale_v")) { cp_##T##_scale_v(x, &v2); return 1; } \
        if (OP("rot")) { cp_##T##_rot(x, &v2); return 1; } \
        if (OP("mirror_unit")) { cp_##T##_mirror_unit(x, &v2); return 1; } \
        if (OP("mirror_v")) { cp_##T##_mirror_v(x, &v2); return 1; } \
        if (OP("rot_ij")) { cp_##T##_rot_ij(x, (size_t)N[0], (size_t)N[1], &sc2); return 1; } }
    X2(mat2) X2(mat2w) X2(mat2i) X2(mat2wi)
#define X3(T) if (IS(T)) { cp_##T##_t *x = &R_##T[r]; \
        if (OP("scale")) { cp_##T##_scale(x, N[0], N[1], N[2]); return 1; } \
        if (OP("scale_v")) { cp_##T##_scale_v(x, &v3); return 1; } \
        if (OP("rot_x")) { cp_##T##_rot_x(x, &v2); return 1; } \
        if (OP("rot_y")) { cp_##T##_rot_y(x, &v2); return 1; } \
        if (OP("rot_z")) { cp_##T##_rot_z(x, &v2); return 1; } \
        if (OP("rot_unit")) { cp_##T##_rot_unit(x, &v3, &sc3); return 1; } \
        if (OP("rot_v")) { cp_##T##_rot_v(x, &v3, &sc3); return 1; } \
        if (OP("rot_unit_into_z")) { cp_##T##_rot_unit_into_z(x, &v3); return 1; } \
        if (OP("rot_into_z")) { ret(cp_##T##_rot_into_z(x, &v3)); return 1; } \
        if (OP("mirror_unit")) { cp_##T##_mirror_unit(x, &v3); return 1; } \
        if (OP("mirror_v")) { cp_##T##_mirror_v(x, &v3); return 1; } \
        if (OP("rot_ij")) { cp_##T##_rot_ij(x, (size_t)N[0], (size_t)N[1], &sc2); return 1; } }
    X3(mat3) X3(mat3w) X3(mat3i) X3(mat3wi) X3(mat4) X3(mat4i)
#define XL2(T) if (IS(T)) { if (OP("xlat")) { cp_##T##_xlat(&R_##T[r], N[0], N[1]); return 1; } if (OP("xlat_v")) { cp_##T##_xlat_v(&R_##T[r], &v2); return 1; } }
    XL2(mat2w) XL2(mat2wi) XL2(mat3) XL2(mat3i)
#define XL3(T) if (IS(T)) { if (OP("xlat")) { cp_##T##_xlat(&R_##T[r], N[0], N[1], N[2]); return 1; } if (OP("xlat_v")) { cp_##T##_xlat_v(&R_##T[r], &v3); return 1; } }
    XL3(mat3w) XL3(mat3wi) XL3(mat4) XL3(mat4i)
    if (IS(mat3) && OP("is_rect_rot")) { ret(cp_mat3_is_rect_rot(&R_mat3[a])); return 1; }
    return 0;
}

static int vecop(char const *op, char const *t, char const *s, int r, int a, int b)
{
    int d = t[3] - '0', o = (int)N[0];
#define X(D) if (d == D) { cp_vec##D##_t *x = &V##D[r], *p = &V##D[a], *q = &V##D[b]; cp_vec##D##_t u; memcpy(u.v, N, sizeof u.v); \
        if (OP("add")) { cp_vec##D##_add(x, p, q); return 1; } \
        if (OP("sub")) { cp_vec##D##_sub(x, p, q); return 1; } \
        if (OP("neg")) { cp_vec##D##_neg(x, p); return 1; } \
        if (OP("mul")) { cp_vec##D##_mul(x, p, N[0]); return 1; } \
        if (OP("div")) { cp_vec##D##_div(x, p, N[0]); return 1; } \
        if (OP("mulc")) { cp_vec##D##_mulc(x, p, q); return 1; } \
        if (OP("divc")) { cp_vec##D##_divc(x, p, q); return 1; } \
        if (OP("min")) { cp_vec##D##_min(x, p, q); return 1; } \
        if (OP("max")) { cp_vec##D##_max(x, p, q); return 1; } \
        if (OP("rev")) { cp_vec##D##_rev(x, p); return 1; } \
        if (OP("lerp")) { cp_vec##D##_lerp(x, p, q, N[0]); return 1; } \
        if (OP("unit")) { *x = u; ret(cp_vec##D##_unit(x, x)); return 1; } \
        if (OP("dot")) { ret(cp_vec##D##_dot(p, q)); return 1; } \
        if (OP("sqr_len")) { ret(cp_vec##D##_sqr_len(p)); ret(cp_vec##D##_len(p)); return 1; } \
        if (OP("sqr_dist")) { ret(cp_vec##D##_sqr_dist(p, q)); ret(cp_vec##D##_dist(p, q)); return 1; } \
        if (OP("lex_cmp")) { ret(cp_vec##D##_lex_cmp(p, q)); ret(cp_vec##D##_eq(p, q)); return 1; } \
        if (OP("max_abs_coord")) { ret(cp_vec##D##_max_abs_coord(p)); return 1; } \
        if (OP("has_len0")) { ret(cp_vec##D##_has_len0(p)); return 1; } }
    X(2) X(3) X(4)
#undef X
    if (OP("xform")) {
        int m = (int)N[0];
        if (!strcmp(s, "mat2")) { cp_vec2_xform(&V2[r], &R_mat2[m], &V2[a]); return 1; }
        if (!strcmp(s, "mat3")) { cp_vec3_xform(&V3[r], &R_mat3[m], &V3[a]); return 1; }
        if (!strcmp(s, "mat4")) { cp_vec4_xform(&V4[r], &R_mat4[m], &V4[a]); return 1; }
        if (!strcmp(s, "mat2w")) { cp_vec2w_xform(&V2[r], &R_mat2w[m], &V2[a]); return 1; }
        if (!strcmp(s, "mat3w")) { cp_vec3w_xform(&V3[r], &R_mat3w[m], &V3[a]); return 1; }
        return 0;
    }
    if (OP("sincos")) { ret(cp_sin_deg(N[0])); ret(cp_cos_deg(N[0])); return 1; }
    if (OP("get_int")) { long long i = -77; bool k = cp_f_get_int(&i, N[0]); ret(k); if (k) ret(i); return 1; }
    if (OP("circle")) { for (cp_circle_each(c, (size_t)N[0])) { if (nf > 400) break; ret(c.idx); ret(c.cos); ret(c.sin); } return 1; }
    if (d == 2) {
        cp_vec2_t *x = &V2[r], *p = &V2[a], *q = &V2[b], u = {{ N[0], N[1] }};
        if (OP("nearest")) { cp_vec2_nearest(x, p, &u, q); return 1; }
        if (OP("cross_z")) { ret(cp_vec2_cross_z(p, q)); return 1; }
        if (OP("normal_z")) { ret(cp_vec2_normal_z(p, q)); return 1; }
        if (OP("angle")) { ret(cp_vec2_angle(p, q)); return 1; }
        if (OP("port")) { cp_vec2_port(x, p, q); return 1; }
        if (o < 0 || o > 2) return 0;
        cp_vec2_t *z = &V2[o];
        if (OP("in_line")) { ret(cp_vec2_in_line(p, z, q)); return 1; }
        if (OP("right_cross3_z")) { ret(cp_vec2_right_cross3_z(p, z, q)); return 1; }
        if (OP("left_cross3_z")) { ret(cp_vec2_left_cross3_z(p, z, q)); return 1; }
        if (OP("right_normal3_z")) { ret(cp_vec2_right_normal3_z(p, z, q)); return 1; }
        if (OP("left_normal3_z")) { ret(cp_vec2_left_normal3_z(p, z, q)); return 1; }
        if (OP("angle3")) { ret(cp_vec2_angle3(p, z, q)); return 1; }
    }
    if (d == 3) {
        cp_vec3_t *x = &V3[r], *p = &V3[a], *q = &V3[b];
        if (OP("cross")) { cp_vec3_cross(x, p, q); return 1; }
        if (o < 0 || o > 2) return 0;
        cp_vec3_t *z = &V3[o];
        if (OP("in_line")) { ret(cp_vec3_in_line(p, z, q)); return 1; }
        if (OP("right_cross3")) { cp_vec3_right_cross3(x, p, z, q); return 1; }
        if (OP("left_cross3")) { cp_vec3_left_cross3(x, p, z, q); return 1; }
        if (OP("into_zx")) {
            cp_mat3wi_t m; cp_vec3_t y = {{ N[1], N[2], N[3] }};
            ret(cp_mat3wi_xform_into_zx(&m, z, p, &y));
            for (int i = 0; i < 12; i++) ret(m.n.v[i]);
            for (int i = 0; i < 12; i++) ret(m.i.v[i]);
            for (int i = 0; i < 3; i++) ret(z->v[i]);
            for (int i = 0; i < 3; i++) ret(p->v[i]);
            return 1;
        }
    }
    return 0;
}
static int boxop(char const *op, char const *t, int r, int a, int b)
{
    int d = t[3] - '0';
#define X(D) if (d == D) { cp_vec##D##_minmax_t *x = &B##D[r], *p = &B##D[a], *q = &B##D[b]; cp_vec##D##_t u; memcpy(u.v, N, sizeof u.v); \
        if (OP("box_empty")) { *x = (cp_vec##D##_minmax_t)CP_VEC##D##_MINMAX_EMPTY; return 1; } \
        if (OP("box_full")) { *x = (cp_vec##D##_minmax_t)CP_VEC##D##_MINMAX_FULL; return 1; } \
        if (OP("box_add")) { cp_vec##D##_minmax(x, &u); return 1; } \
        if (OP("box_or")) { cp_vec##D##_minmax_or(x, p, q); return 1; } \
        if (OP("box_and")) { cp_vec##D##_minmax_and(x, p, q); return 1; } \
        if (OP("box_valid")) { ret(cp_vec##D##_minmax_valid(p)); return 1; } }
    X(2) X(3) X(4)
    return 0;
}
int main(void)
{
    static char line[1 << 16];
    while (fgets(line, sizeof line, stdin)) {
        char *c = strtok(line, " \n");
        if (!c) continue;
        if (!strcmp(c, "new")) { fresh(); continue; }
        if (!strcmp(c, "put")) { char *k = tok(), *t = tok(); int r = atoi(tok()); numbers(); put(k, t, r); continue; }
        char *op = tok(), *t = tok(), *s = tok();
        int r = atoi(tok()), a = atoi(tok()), b = atoi(tok());
        numbers(); nf = 0;
        int ok = !strncmp(op, "box_", 4) ? boxop(op, t, r, a, b) : t[0] == 'm' ? matop(op, t, s, r, a, b) : vecop(op, t, s, r, a, b);
        if (ok == 0) printf("{\"unknown\":1}\n"); else show(c, t, r);
        fflush(stdout);
    }
    return 0;
}
