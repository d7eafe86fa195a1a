/* Object pools, region lists, bit vectors and the in-place heap sort. */
#include "amino.h"
#include "drv.h"
extern void aa_aheap_sort(void *_base, size_t nmemb, size_t size, int (*compar)(const void*, const void*));
#define MAXO 1024
static aa_mem_pool_t POOL; static int HAVEPOOL; static size_t PSIZE;
static struct { uint8_t *p; int id; } O[MAXO]; static int NO, NEXTID;
static struct aa_mem_region *REG; static struct aa_mem_rlist *L[8]; static int NL; static int LVAL[MAXO]; static int NLV;
static aa_bits *BV[8]; static size_t BN;
static uint8_t pat(int id, size_t i) { return (uint8_t)(id * 37 + i * 11 + 5); }
static void trace_begin(void) { HAVEPOOL = 0; NO = 0; NEXTID = 1; REG = NULL; NL = 0; NLV = 0; memset(BV, 0, sizeof BV); BN = 0; }
static void trace_end(void) { if (HAVEPOOL) aa_mem_pool_destroy(&POOL); if (REG) aa_mem_region_destroy(REG); for (int i = 0; i < 8; i++) free(BV[i]); }
static void pool_obs(void) {
    jl(",\"live\":[");
    for (int i = 0; i < NO; i++) { int ok = 1; for (size_t k = 0; k < PSIZE; k++) if (O[i].p[k] != pat(O[i].id, k)) ok = 0; jl("%s[%d,%d]", i ? "," : "", O[i].id, ok); }
    jl("]}"); jflush();
}
struct mapcx { int n; };
static void mapf(void *cx, void *el) { struct mapcx *m = cx; jl("%s%d", m->n++ ? "," : "", *(int*)el); }
static void list_obs(void) {
    jl(",\"lists\":[");
    for (int i = 0; i < NL; i++) { struct mapcx m = {0}; jl("%s[", i ? "," : ""); aa_mem_rlist_map(L[i], mapf, &m); jl("]"); }
    jl("]}"); jflush();
}
static void bits_obs(void) {
    jl(",\"bits\":[");
    for (int v = 0; v < 2; v++) { jl("%s[", v ? "," : ""); for (size_t i = 0; i < BN; i++) jl("%s%d", i ? "," : "", aa_bits_get(BV[v], i)); jl("]"); }
    jl("]}"); jflush();
}
static int cmp1(const void *a, const void *b) { int x = ((const int8_t*)a)[0], y = ((const int8_t*)b)[0]; return x - y; }
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (!strcmp(op, "pinit")) { PSIZE = (size_t)ti(1); aa_mem_pool_init(&POOL, PSIZE, (size_t)ti(2)); HAVEPOOL = 1; jl("{\"op\":\"pinit\",\"size\":%zu", PSIZE); pool_obs(); }
    else if (!strcmp(op, "palloc")) {
        uint8_t *p = aa_mem_pool_alloc(&POOL); int id = NEXTID++;
        for (size_t i = 0; i < PSIZE; i++) p[i] = pat(id, i);
        O[NO].p = p; O[NO].id = id; NO++;
        jl("{\"op\":\"palloc\",\"id\":%d,\"a\":[%ld,%ld]", id, (long)((uintptr_t)p >> 20), (long)((uintptr_t)p & 0xfffff)); pool_obs();
    } else if (!strcmp(op, "pfree")) { int k = (int)ti(1); if (k < 1 || k > NO) bad_script("k", op);
        int id = O[k-1].id; aa_mem_pool_free(&POOL, O[k-1].p);
        memmove(&O[k-1], &O[k], sizeof(O[0]) * (size_t)(NO - k)); NO--;
        jl("{\"op\":\"pfree\",\"k\":%d,\"id\":%d", k, id); pool_obs();
    } else if (!strcmp(op, "prelease")) { aa_mem_pool_release(&POOL); NO = 0; jl("{\"op\":\"prelease\""); pool_obs(); }
    else if (!strcmp(op, "lnew")) { if (!REG) REG = aa_mem_region_create((size_t)ti(1)); L[NL++] = aa_mem_rlist_alloc(REG); jl("{\"op\":\"lnew\""); list_obs(); }
    else if (!strcmp(op, "lput")) { /* lput list kind(push|enq) mode(cpy|ptr) value */
        int l = (int)ti(1) - 1, v = (int)ti(4); if (l < 0 || l >= NL || NLV >= MAXO) bad_script("list", op);
        int push = !strcmp(ts(2), "push"), cpy = !strcmp(ts(3), "cpy");
        if (cpy) { int t = v; if (push) aa_mem_rlist_push_cpy(L[l], &t, sizeof t); else aa_mem_rlist_enqueue_cpy(L[l], &t, sizeof t); t = -1; }
        else { LVAL[NLV] = v; if (push) aa_mem_rlist_push_ptr(L[l], &LVAL[NLV]); else aa_mem_rlist_enqueue_ptr(L[l], &LVAL[NLV]); NLV++; }
        jl("{\"op\":\"lput\",\"l\":%d,\"push\":%d,\"v\":%d", l + 1, push, v); list_obs();
    } else if (!strcmp(op, "lpop")) { int l = (int)ti(1) - 1; int *p = aa_mem_rlist_pop(L[l]); jl("{\"op\":\"lpop\",\"l\":%d,\"r\":%d", l + 1, p ? *p : -1); list_obs(); }
    else if (!strcmp(op, "binit")) { BN = (size_t)ti(1); for (int v = 0; v < 2; v++) { BV[v] = malloc(aa_bits_size(BN)); memset(BV[v], 0, aa_bits_size(BN)); } jl("{\"op\":\"binit\",\"n\":%zu,\"sz\":%zu", BN, aa_bits_size(BN)); bits_obs(); }
    else if (!strcmp(op, "bset")) { int v = (int)ti(1) - 1; aa_bits_set(BV[v], (size_t)ti(2), (int)ti(3)); jl("{\"op\":\"bset\",\"v\":%d,\"i\":%ld,\"b\":%ld", v + 1, ti(2), ti(3)); bits_obs(); }
    else if (!strcmp(op, "bgetn")) { int v = (int)ti(1) - 1; jl("{\"op\":\"bgetn\",\"v\":%d,\"i\":%ld,\"r\":%d", v + 1, ti(2), aa_bits_getn(BV[v], aa_bits_size(BN), (size_t)ti(2))); bits_obs(); }
    else if (!strcmp(op, "band")) { aa_bits_and(BV[0], BV[1], BN); jl("{\"op\":\"band\""); bits_obs(); }
    else if (!strcmp(op, "bor")) { aa_bits_or(BV[0], BV[1], BN); jl("{\"op\":\"bor\""); bits_obs(); }
    else if (!strcmp(op, "bxor")) { aa_bits_xor(BV[0], BV[1], BN); jl("{\"op\":\"bxor\""); bits_obs(); }
    else if (!strcmp(op, "sort")) { /* sort elemsize key... : element i carries tag i in byte 1 and a pattern beyond */
        size_t sz = (size_t)ti(1), n = (size_t)NTOK - 2; uint8_t *b = malloc(sz * n + 1);
        jl("{\"op\":\"sort\",\"sz\":%zu,\"in\":[", sz);
        for (size_t i = 0; i < n; i++) { b[i*sz] = (uint8_t)(int8_t)ti((int)i + 2); jl("%s%ld", i ? "," : "", ti((int)i + 2));
            if (sz > 1) b[i*sz+1] = (uint8_t)i; for (size_t k = 2; k < sz; k++) b[i*sz+k] = pat((int)i, k); }
        b[sz*n] = 0x5a;
        aa_aheap_sort(b, n, sz, cmp1);
        int ok = b[sz*n] == 0x5a;
        jl("],\"out\":[");
        for (size_t i = 0; i < n; i++) { int tag = sz > 1 ? b[i*sz+1] : 0; for (size_t k = 2; k < sz; k++) if (b[i*sz+k] != pat(tag, k)) ok = 0;
            jl("%s[%d,%d]", i ? "," : "", (int)(int8_t)b[i*sz], tag); }
        jl("],\"ok\":%d}", ok); jflush(); free(b);
    } else bad_script("op", op);
}
DRV_MAIN
