/* one instance of the vector driver per element type */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define VT CAT(NAME, _t)
#define VA CAT(NAME, _a)
typedef CP_VEC_T(T) VT;
static VT VA[2];
static int CAT(NAME, _cmp)(T const *a, T const *b, void *u) { return GET(*a) < GET(*b) ? -1 : GET(*a) > GET(*b); }
static void CAT(NAME, _new)(void) { cp_v_fini(&VA[0]); cp_v_fini(&VA[1]); }
static void CAT(NAME, _op)(char const *o)
{
    VT *a = &VA[0], *b = &VA[1];
    long r = 0;
    T *arr = malloc((size_t)(NA + 1) * sizeof(T));      /* exactly as long as needed, for the address checker */
    for (int i = 0; i < NA; i++) arr[i] = PUT(A[i]);
#define CNT(x) ((x) < 0 ? CP_SIZE_MAX : (size_t)(x))
    if (!strcmp(o, "push")) { cp_v_push(a, PUT(A[0])); }
    else if (!strcmp(o, "push0")) { cp_v_push0(a); }
    else if (!strcmp(o, "pop")) { r = GET(cp_v_pop(a)); }
    else if (!strcmp(o, "insert1")) { cp_v_insert1(a, (size_t)A[0], PUT(A[1])); }
    else if (!strcmp(o, "insertarr")) { cp_v_insert_arr(a, (size_t)A[0], arr + 1, (size_t)(NA - 1)); }
    else if (!strcmp(o, "insertvec")) { cp_v_insert(a, (size_t)A[0], b); }
    else if (!strcmp(o, "insertself")) { cp_v_insert_arr(a, (size_t)A[0], a->data + A[1], (size_t)A[2]); }
    else if (!strcmp(o, "inflate")) { cp_v_inflate(a, (size_t)A[0], (size_t)A[1]); }
    else if (!strcmp(o, "remove")) { cp_v_remove(a, (size_t)A[0], CNT(A[1])); }
    else if (!strcmp(o, "extract")) { r = GET(cp_v_extract(a, (size_t)A[0])); }
    else if (!strcmp(o, "reverse")) { cp_v_reverse(a, (size_t)A[0], CNT(A[1])); }
    else if (!strcmp(o, "qsort")) { cp_v_qsort(a, (size_t)A[0], CNT(A[1]), CAT(NAME, _cmp), (void *)NULL); }
    else if (!strcmp(o, "setsize")) { cp_v_set_size(a, (size_t)A[0]); }
    else if (!strcmp(o, "ensuresize")) { cp_v_ensure_size(a, (size_t)A[0]); }
    else if (!strcmp(o, "shrink")) { cp_v_shrink(a, (size_t)A[0]); }
    else if (!strcmp(o, "copy")) { cp_v_copy(a, (size_t)A[0], b, (size_t)A[1], CNT(A[2])); }
    else if (!strcmp(o, "copyself")) { cp_v_copy(a, (size_t)A[0], a, (size_t)A[1], CNT(A[2])); }
    else if (!strcmp(o, "copyarr")) { cp_v_copy_arr(a, (size_t)A[0], b, (size_t)A[1], (size_t)A[2]); }
    else if (!strcmp(o, "copy1")) { T one = PUT(A[1]); cp_v_copy1(a, (size_t)A[0], one); }
    else if (!strcmp(o, "append")) { cp_v_append(a, b); }
    else if (!strcmp(o, "appendself")) { cp_v_append(a, a); }
    else if (!strcmp(o, "clear")) { cp_v_clear(a, (size_t)A[0]); }
    else if (!strcmp(o, "init0")) { cp_v_fini(a); cp_v_init0(a, (size_t)A[0]); }
    else if (!strcmp(o, "initwith")) { cp_v_fini(a); cp_v_init_with(a, arr, (size_t)NA); }
    else if (!strcmp(o, "exchange")) { VT h = *a; *a = *b; *b = h; }
    else if (!strcmp(o, "bsearch")) {
        cp_v_qsort(a, 0, CP_SIZE_MAX, CAT(NAME, _cmp), (void *)NULL);
        T key = PUT(A[0]);
        size_t i = cp_v_bsearch(&key, a, CAT(NAME, _cmp), (void *)NULL);
        r = i == CP_SIZE_MAX ? -1 : (long)i;
    }
    else if (!strcmp(o, "nth")) { r = GET(cp_v_nth(a, (size_t)A[0])); CHECK(cp_v_idx(a, &a->data[A[0]]) == (size_t)A[0]); }
    else if (!strcmp(o, "lastbut")) { r = GET(cp_v_last_but(a, (size_t)A[0])); }
    else { printf("{\"x\":\"unknown\"}\n"); free(arr); return; }
    free(arr);
    printf("{\"r\":%ld,\"x\":[", r);
    for (int k = 0; k < 2; k++) {
        printf("%s[", k ? "," : "");
        for (size_t i = 0; i < VA[k].size; i++) printf("%s%ld", i ? "," : "", GET(VA[k].data[i]));
        printf("]");
    }
    printf("]");
}
#undef CAT
#undef CAT_
#undef VT
#undef VA
#undef T
#undef NAME
#undef PUT
#undef GET
#undef CNT
