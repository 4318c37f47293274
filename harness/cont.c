/* Replays histories of container operations (spec/Dict.tla, Heap.tla, Seqs.tla) into the base library.
 * One command per line; one line of JSON per command ("new" lines start a history and print nothing). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <hob3lbase/dict.h>
#include <hob3lbase/heap.h>
#include <hob3lbase/list.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/stream.h>
#include <hob3lbase/qsort.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/utf8.h>

#define MAXN 4096
static long A[MAXN];
static int NA;
static char const *bad;
#define CHECK(c) do { if (!(c) && !bad) bad = #c; } while (0)

/* ------------------------------------------------------------------ dict */
typedef struct { cp_dict_t node; long key, sum; int id; } num_t;
static num_t N[MAXN];
static cp_dict_t *R[3], *MN[3], *MX[3];
static num_t *num(cp_dict_t *a) { return (num_t *)((char *)a - offsetof(num_t, node)); }
static long sum(cp_dict_t *a) { return a ? num(a)->sum : 0; }
static void upd(cp_dict_t *a) { if (a) num(a)->sum = num(a)->key + sum(a->edge[0]) + sum(a->edge[1]); }
static void ev(cp_dict_aug_t *u, cp_dict_t *a, cp_dict_t *b, cp_dict_aug_type_t c)
{
    switch (c) {
    case CP_DICT_AUG_LEFT: case CP_DICT_AUG_RIGHT: upd(b); upd(a); break;
    case CP_DICT_AUG_NOP: case CP_DICT_AUG_ADD: case CP_DICT_AUG_JOIN: case CP_DICT_AUG_CUT_LEAF: upd(a); break;
    case CP_DICT_AUG_NOP2: upd(a); upd(a->parent); break;
    case CP_DICT_AUG_FINI: while (a) { upd(a); a = a->parent; } break;
    case CP_DICT_AUG_CUT_SWAP: break;
    case CP_DICT_AUG_SPLIT: num(a)->sum = num(a)->key; break;
    }
}
static cp_dict_aug_t aug[1] = {{ .event = ev }};
static int cmpk(long *k, cp_dict_t *b, void *u) { return *k < num(b)->key ? -1 : *k > num(b)->key; }
static int cmpn(cp_dict_t *a, cp_dict_t *b, void *u) { return cmpk(&num(a)->key, b, u); }
static num_t *fresh(long i, long k)
{
    memset(&N[i], 0, sizeof(N[i]));
    N[i].key = N[i].sum = k; N[i].id = (int)i;
    return &N[i];
}
static int height(cp_dict_t *n, int *h)
{
    if (!n) { *h = 0; return 0; }
    int h0, h1;
    int b0 = height(n->edge[0], &h0), b1 = height(n->edge[1], &h1);
    CHECK(b0 == b1);
    if (cp_dict_is_red(n))
        for (int i = 0; i < 2; i++) CHECK(!n->edge[i] || !cp_dict_is_red(n->edge[i]));
    for (int i = 0; i < 2; i++) CHECK(!n->edge[i] || n->edge[i]->parent == n);
    *h = 1 + (h0 > h1 ? h0 : h1);
    int b = b0 + !cp_dict_is_red(n);
    CHECK((size_t)b == cp_dict_black_height(n));
    CHECK(num(n)->sum == num(n)->key + sum(n->edge[0]) + sum(n->edge[1]));
    return b;
}
static int idof(cp_dict_t *n) { return n ? num(n)->id : 0; }
static void dump(void)
{
    int hh[3];
    printf("\"t\":[");
    for (int i = 1; i <= 2; i++) {
        long cnt = 0, back = 0;
        static int ids[MAXN];
        printf("%s[", i > 1 ? "," : "");
        cp_dict_t *prev = NULL;
        for (cp_dict_each(n, R[i])) {
            if (cnt >= MAXN - 1) { CHECK(!"cycle"); break; }
            printf("%s%d", cnt ? "," : "", num(n)->id);
            CHECK(!prev || num(prev)->key <= num(n)->key);
            prev = n;
            ids[cnt++] = num(n)->id;
        }
        printf("]");
        for (cp_dict_each_rev(n, R[i])) {
            if (back >= cnt) { CHECK(!"longer backwards"); break; }
            CHECK(ids[cnt - 1 - back] == num(n)->id);
            back++;
        }
        CHECK(back == cnt);
        CHECK(!R[i] || R[i]->parent == NULL);
        height(R[i], &hh[i]);
        CHECK(MN[i] == cp_dict_min(R[i]));
        CHECK(MX[i] == cp_dict_max(R[i]));
        CHECK(!MN[i] || num(MN[i])->id == ids[0]);
        CHECK(!MX[i] || num(MX[i])->id == ids[cnt - 1]);
    }
    printf("],\"s\":[%ld,%ld],\"b\":[%d,%d]", sum(R[1]), sum(R[2]), hh[1], hh[2]);
}
static void cache(int i) { MN[i] = cp_dict_min(R[i]); MX[i] = cp_dict_max(R[i]); }
static void caches(void) { cache(1); cache(2); }
static int in_tree(cp_dict_t *x) { return cp_dict_root(x) == R[1] ? 1 : 2; }

static void dict_op(char const *o)
{
    long r = 0, lk[4];
    int look = 0;
    int i = A[0] == 2 ? 2 : 1;
    if (!strcmp(o, "ins")) {
        cp_dict_t *n = &fresh(A[1], A[2])->node, *f;
        long k = A[2];
        int d = (int)A[3];
        if (A[4] == 0) f = cp_dict_insert_aug(n, &R[i], cmpn, NULL, d, aug);
        else if (A[4] == 1) f = cp_dict_insert_by_aug(n, &k, &R[i], cmpk, NULL, d, aug);
        else f = cp_dict_insert_update_by_aug(n, &k, &R[i], &MN[i], &MX[i], cmpk, NULL, d, aug);
        if (A[4] < 2) cache(i);
        r = idof(f);
    }
    else if (!strcmp(o, "iat")) {
        cp_dict_t *n = &fresh(A[1], A[2])->node, *p = &N[A[3]].node;
        if (A[5]) cp_dict_insert_update_at_aug(n, p, (unsigned)A[4], &R[i], &MN[i], &MX[i], aug);
        else { cp_dict_insert_at_aug(n, p, (unsigned)A[4], &R[i], aug); cache(i); }
    }
    else if (!strcmp(o, "iend")) {
        cp_dict_ref_t ref = { .parent = NULL, .child = (unsigned)A[3] };
        cp_dict_insert_ref_aug(&fresh(A[1], A[2])->node, &ref, &R[i], aug);
        cache(i);
    }
    else if (!strcmp(o, "iref")) {
        cp_dict_ref_t ref;
        long k = A[2];
        r = idof(cp_dict_find_ref(&ref, &k, R[i], cmpk, NULL, (int)A[3]));
        cp_dict_insert_ref_aug(&fresh(A[1], k)->node, &ref, &R[i], aug);
        cache(i);
    }
    else if (!strcmp(o, "rem")) { cp_dict_remove_aug(&N[A[1]].node, &R[i], aug); cache(i); CHECK(!cp_dict_is_member(&N[A[1]].node)); }
    else if (!strcmp(o, "ext")) {
        cp_dict_t *x;
        if (A[2]) {
            x = cp_dict_extract_update_start_aug(&R[i], A[1] ? &MX[i] : &MN[i], (unsigned)A[1], aug);
            if (A[1]) { if (MN[i] == x) MN[i] = NULL; } else { if (MX[i] == x) MX[i] = NULL; }
        }
        else {
            x = A[1] ? cp_dict_extract_max_aug(&R[i], aug) : cp_dict_extract_min_aug(&R[i], aug);
            cache(i);
        }
        r = idof(x);
    }
    else if (!strcmp(o, "find")) { long k = A[1]; r = idof(cp_dict_find(&k, R[i], cmpk, NULL, (int)A[2])); }
    else if (!strcmp(o, "swap")) {
        num_t *x = &N[A[0]], *y = &N[A[1]];
        int a = in_tree(&x->node), b = in_tree(&y->node);
        if (a == b) cp_dict_swap_update_root(&R[a], &x->node, &y->node);
        else cp_dict_swap_update_root2(&R[1], &R[2], &x->node, &y->node);
        long h = x->key; x->key = y->key; y->key = h;
        h = x->sum; x->sum = y->sum; y->sum = h;
        caches();
    }
    else if (!strcmp(o, "subst")) {
        num_t *x = &N[A[0]], *y = fresh(A[1], x->key);
        y->sum = x->sum;
        int a = in_tree(&x->node);
        cp_dict_swap_update_root(&R[a], &x->node, &y->node);
        CHECK(!cp_dict_is_member(&x->node));
        caches();
    }
    else if (!strcmp(o, "split")) {
        long k = A[1];
        cp_dict_t *l = NULL, *g = NULL, *root = R[i];
        cp_dict_split_aug(&l, &g, root, &k, cmpk, NULL, (int)A[2], aug);
        R[1] = l; R[2] = g;
        caches();
    }
    else if (!strcmp(o, "join2")) { R[1] = cp_dict_join2_aug(R[1], R[2], aug); R[2] = NULL; caches(); }
    else if (!strcmp(o, "join3")) { R[1] = cp_dict_join3_aug(R[1], &fresh(A[0], A[1])->node, R[2], aug); R[2] = NULL; caches(); }
    else if (!strcmp(o, "look")) {
        cp_dict_t *x = &N[A[1]].node;
        look = 1;
        lk[0] = idof(cp_dict_next(x)); lk[1] = idof(cp_dict_prev(x));
        lk[2] = idof(cp_dict_min(R[i])); lk[3] = idof(cp_dict_max(R[i]));
        CHECK(cp_dict_root(x) == R[i]);
        CHECK(cp_dict_contains(R[i], x));
        CHECK(cp_dict_may_contain(R[i], x));
        CHECK(!cp_dict_contains(R[3 - i], x));
        CHECK(cp_dict_is_root(x) == (x == R[i]));
    }
    else { printf("{\"x\":\"unknown\"}\n"); return; }
    if (look) printf("{\"r\":[%ld,%ld,%ld,%ld],", lk[0], lk[1], lk[2], lk[3]);
    else printf("{\"r\":%ld,", r);
    dump();
}

/* ------------------------------------------------------------------ heap */
typedef struct { size_t idx; long prio; int id; } he_t;
static he_t E[MAXN];
static cp_heap_t H;
typedef CP_VEC_T(long) lv_t;
static lv_t V;
static he_t *he(size_t const *x) { return (he_t *)((char *)(size_t)x - offsetof(he_t, idx)); }
static int cmph(size_t const *a, size_t const *b, void *u)
{
    he_t *x = he(a), *y = he(b);
    return x->prio < y->prio ? -1 : x->prio > y->prio ? 1 : x->id < y->id ? -1 : x->id > y->id;
}
static int cmpl(long const *a, long const *b, void *u) { return *a < *b ? -1 : *a > *b; }
static int idh(size_t *x) { return x ? he(x)->id : 0; }
static void heap_op(char const *o, int ptr)
{
    long r = 0;
    if (!strcmp(o, "hins")) { E[A[0]].prio = A[1]; cp_heap_insert(&H, cmph, NULL, &E[A[0]].idx); }
    else if (!strcmp(o, "hext")) { size_t *x = cp_heap_extract(&H, cmph, NULL); r = idh(x); CHECK(!x || !cp_heap_is_member(x)); }
    else if (!strcmp(o, "hrem")) { size_t *x = cp_heap_remove(&H, cmph, NULL, E[A[0]].idx); r = idh(x); CHECK(!cp_heap_is_member(x)); }
    else if (!strcmp(o, "hupd")) { E[A[0]].prio = A[1]; cp_heap_update(&H, cmph, NULL, E[A[0]].idx); }
    else if (!strcmp(o, "hrep")) {
        size_t idx = A[0] ? E[A[0]].idx : CP_HEAP_NO_IDX;
        if (A[1]) E[A[1]].prio = A[2];
        r = idh(cp_heap_replace(&H, cmph, NULL, idx, A[1] ? &E[A[1]].idx : NULL));
    }
    else if (!strcmp(o, "hmake")) {
        for (int i = 0; i < NA; i++) { E[i + 1].prio = A[i]; cp_v_push(&H, &E[i + 1].idx); }
        cp_heap_make_(&H, cmph, NULL);
    }
    else if (!strcmp(o, "vins")) cp_v_heap_insert(&V, cmpl, (void *)NULL, A[0]);
    else if (!strcmp(o, "vext")) r = cp_v_heap_extract(&V, cmpl, (void *)NULL);
    else if (!strcmp(o, "vupd")) {
        size_t p = 0;
        while (p < V.size && V.data[p] != A[0]) p++;
        CHECK(p < V.size);
        if (p < V.size) { V.data[p] = A[1]; cp_v_heap_update(&V, cmpl, (void *)NULL, p); }
    }
    else if (!strcmp(o, "vmake")) {
        for (int i = 0; i < NA; i++) cp_v_push(&V, A[i]);
        cp_v_heap_make(&V, cmpl, (void *)NULL);
    }
    else { printf("{\"x\":\"unknown\"}\n"); return; }
    size_t c = ptr ? H.size : V.size;
    for (size_t i = 1; i < c; i++) {
        if (ptr) CHECK(cmph(H.data[(i - 1) / 2], H.data[i], NULL) <= 0);
        else CHECK(V.data[(i - 1) / 2] <= V.data[i]);
    }
    if (ptr) {
        for (size_t i = 0; i < c; i++) CHECK(*H.data[i] == i);
        size_t m = 0;
        for (int i = 1; i < MAXN; i++) m += cp_heap_is_member(&E[i].idx);
        CHECK(m == c);
    }
    long m = ptr ? idh(cp_heap_min(&H)) : V.size ? *cp_v_heap_min(&V) : 0;
    printf("{\"r\":%ld,\"m\":%ld,\"c\":%zu", r, m, c);
}

/* --------------------------------------------------------------- vectors */
typedef struct { int v; char pad[9]; } fat_t;
#define T unsigned char
#define NAME vec1
#define PUT(x) ((unsigned char)(x))
#define GET(x) ((long)(x))
#include "cont_vec.inc"
#define T long
#define NAME vec8
#define PUT(x) ((long)(x))
#define GET(x) ((long)(x))
#include "cont_vec.inc"
#define T fat_t
#define NAME vecf
#define PUT(x) ((fat_t){.v = (int)(x)})
#define GET(x) ((long)(x).v)
#include "cont_vec.inc"

/* --------------------------------------------------------------- strings */
static cp_vchar_t S[2];
static void str_op(char const *o)
{
    static char buf[MAXN];
    long r = 0;
    if (!strcmp(o, "cpush")) cp_vchar_push(&S[0], (char)A[0]);
    else if (!strcmp(o, "cpop")) r = (unsigned char)cp_vchar_pop(&S[0]);
    else if (!strcmp(o, "cstr") || !strcmp(o, "carr")) {
        for (int i = 0; i < NA; i++) buf[i] = (char)A[i];
        buf[NA] = 0;
        if (o[1] == 's') cp_vchar_append_str(&S[0], buf); else { buf[NA] = 'X'; cp_vchar_append_arr(&S[0], buf, (size_t)NA); }
    }
    else if (!strcmp(o, "cappend")) { cp_vchar_cstr(&S[1]); cp_vchar_append(&S[0], &S[1]); }
    else if (!strcmp(o, "cprintf") || !strcmp(o, "cstream")) {
        for (int i = 1; i < NA; i++) buf[i - 1] = (char)A[i];
        buf[NA - 1] = 0;
        if (o[1] == 'p') cp_vchar_printf(&S[0], "%s-%d", buf, (int)A[0]);
        else cp_printf(CP_STREAM_FROM_VCHAR(&S[0]), "%s-%d", buf, (int)A[0]);
    }
    else if (!strcmp(o, "cwrite")) {
        for (int i = 0; i < NA; i++) buf[i] = (char)A[i];
        cp_write(CP_STREAM_FROM_VCHAR(&S[0]), buf, (size_t)NA);
    }
    else if (!strcmp(o, "cclear")) cp_vchar_clear(&S[0]);
    else if (!strcmp(o, "cswap")) cp_vchar_swap(&S[0], &S[1]);
    else if (!strcmp(o, "cfini")) { cp_vchar_fini(&S[0]); CHECK(S[0].size == 0); }
    else if (!strcmp(o, "cself")) { CHECK(strlen(cp_vchar_cstr(&S[0])) == S[0].size); }
    else { printf("{\"x\":\"unknown\"}\n"); return; }
    printf("{\"r\":%ld,\"x\":[", r);
    for (int k = 0; k < 2; k++) {
        printf("%s[", k ? "," : "");
        for (size_t i = 0; i < S[k].size; i++) printf("%s%d", i ? "," : "", (unsigned char)S[k].data[i]);
        printf("]");
        CHECK(S[k].data == NULL || S[k].data[S[k].size] == 0);
        CHECK(S[k].size < S[k].alloc || S[k].data == NULL);
    }
    printf("]");
}

/* ------------------------------------------------------------ bit vector */
static CP_VEC_T(size_t) BW;
static CP_VEC_T(unsigned char) BB;
static int bbytes;
static void bit_op(char const *o, size_t bits)
{
    long r = 0;
    if (!strcmp(o, "bset")) { if (bbytes) cp_v_bit_set(&BB, (size_t)A[0], A[1] != 0); else cp_v_bit_set(&BW, (size_t)A[0], A[1] != 0); }
    else if (!strcmp(o, "bget")) r = bbytes ? cp_v_bit_get(&BB, (size_t)A[0]) : cp_v_bit_get(&BW, (size_t)A[0]);
    else { printf("{\"x\":\"unknown\"}\n"); return; }
    printf("{\"r\":%ld,\"x\":[[", r);
    for (size_t i = 0; i < bits; i++)
        printf("%s%d", i ? "," : "", bbytes ? (BB.data[i / 8] >> (i % 8)) & 1 : (int)((BW.data[i / 64] >> (i % 64)) & 1));
    printf("],[]]");
}

/* ----------------------------------------------------------------- rings */
typedef struct ring { struct ring *next, *prev; int id; } ring_t;
static ring_t G[MAXN];
static int gn;
static void ring_op(char const *o)
{
    long r = 0;
    if (!strcmp(o, "lchain")) cp_list_chain(&G[A[0]], &G[A[1]]);
    else if (!strcmp(o, "lremove")) cp_list_remove(&G[A[0]]);
    else if (!strcmp(o, "lmember")) r = cp_list_is_member(&G[A[0]]);
    else { printf("{\"x\":\"unknown\"}\n"); return; }
    printf("{\"r\":%ld,\"x\":[", r);
    for (int k = 1; k <= gn; k++) {
        int ids[MAXN], c = 0, b = 0;
        printf("%s[", k > 1 ? "," : "");
        for (cp_list_each(j, &G[k])) { if (c > gn) { CHECK(!"endless"); break; } printf("%s%d", c ? "," : "", j->id); ids[c++] = j->id; }
        printf("]");
        for (cp_list_each_rev(j, &G[k])) { b++; if (b > c) break; CHECK(j->id == ids[c - b]); }
        CHECK(b == c);
    }
    printf("]");
}

/* ------------------------------------------------------------------ text */
static void utf_op(char const *o)
{
    long r = 0;
    char *b = malloc((size_t)NA + 1);
    for (int i = 0; i < NA; i++) b[i] = (char)A[i];
    if (!strcmp(o, "udec") || !strcmp(o, "uesc")) {
        cp_utf8_iter_t it = { .data = b, .size = (size_t)NA, .error_msg = NULL };
        printf("{\"r\":0,\"x\":[");
        for (int i = 0; i <= NA + 1; i++) {
            char const *was = it.data;
            unsigned c = o[1] == 'd' ? cp_utf8_decode(&it) : cp_utf8_escaped_decode(&it);
            if (it.error_msg) { printf("%s-1", i ? "," : ""); CHECK(it.data == was); break; }
            printf("%s%u", i ? "," : "", c);
            if (!c) break;
            CHECK(it.data + it.size == b + NA);
        }
        printf("]");
    }
    else if (!strcmp(o, "uenc")) {
        char *d = malloc((size_t)A[1]);
        r = (long)cp_utf8_encode(d, (size_t)A[1], (unsigned)A[0]);
        printf("{\"r\":%ld,\"x\":[", r);
        for (long i = 0; i < r; i++) printf("%s%d", i ? "," : "", (unsigned char)d[i]);
        printf("]");
        free(d);
    }
    else if (!strcmp(o, "uok")) printf("{\"r\":%d,\"x\":[]", (int)cp_utf8_ok((unsigned)A[0]));
    else printf("{\"x\":\"unknown\"");
    free(b);
}

int main(void)
{
    static char line[1 << 16];
    char kind[16] = "", op[32];
    long type = 0, size = 0;
    while (fgets(line, sizeof(line), stdin)) {
        char *s = line;
        int k = 0;
        while (*s && *s != ' ' && *s != '\n' && k < 31) op[k++] = *s++;
        op[k] = 0;
        if (!strcmp(op, "new")) {
            sscanf(s, "%15s %ld %ld", kind, &type, &size);
            for (int i = 0; i < 3; i++) R[i] = MN[i] = MX[i] = NULL;
            H.size = 0; V.size = 0;
            for (int i = 0; i < MAXN; i++) { E[i].idx = CP_HEAP_NO_IDX; E[i].id = i; E[i].prio = 0; }
            vec1_new(); vec8_new(); vecf_new();
            cp_vchar_fini(&S[0]); cp_vchar_fini(&S[1]);
            cp_v_fini(&BW); cp_v_fini(&BB);
            bbytes = type & 1;
            if (!strcmp(kind, "bit")) { if (bbytes) cp_v_set_size(&BB, (size_t)size); else cp_v_set_size(&BW, (size_t)(size / 8 + 1)); }
            gn = (int)size;
            for (int i = 1; i < MAXN; i++) { cp_list_init(&G[i]); G[i].id = i; }
            continue;
        }
        NA = 0;
        for (;;) {
            char *e;
            long v = strtol(s, &e, 10);
            if (e == s) break;
            A[NA++] = v;
            s = e;
        }
        for (int i = NA; i < NA + 8; i++) A[i] = 0;
        bad = NULL;
        if (!strcmp(kind, "dict")) dict_op(op);
        else if (!strcmp(kind, "ptr")) heap_op(op, 1);
        else if (!strcmp(kind, "vec")) { type == 0 ? vec1_op(op) : type == 1 ? vec8_op(op) : vecf_op(op); }
        else if (!strcmp(kind, "hvec")) heap_op(op, 0);
        else if (!strcmp(kind, "str")) str_op(op);
        else if (!strcmp(kind, "bit")) bit_op(op, (size_t)(8 * size));
        else if (!strcmp(kind, "ring")) ring_op(op);
        else if (!strcmp(kind, "utf")) utf_op(op);
        if (bad) printf(",\"bad\":\"%s\"", strchr(bad, '"') ? "x" : bad);
        printf("}\n");
        fflush(stdout);
    }
    return 0;
}
