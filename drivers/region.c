/* Executes region histories on aa_mem_region and records what a client can observe. */
#include "amino.h"
#include "drv.h"
#define MAXB 4096
static struct aa_mem_region *R;
static struct { uint8_t *p; size_t n; int id; } B[MAXB];
static int NB, NEXT;
static struct { uint8_t *p; int nb; } MK[64];
static int NMK;
static uint8_t *TMPP; static size_t TMPN; static int TMPID;
static uint8_t pat(int id, size_t i) { return (uint8_t)(id * 37 + i * 11 + 5); }
static void fill(uint8_t *p, size_t n, int id) { for (size_t i = 0; i < n; i++) p[i] = pat(id, i); }
static int intact(uint8_t *p, size_t n, int id) { for (size_t i = 0; i < n; i++) if (p[i] != pat(id, i)) return 0; return 1; }
static void addr(const char *k, void *p) { jl(",\"%s\":[%ld,%ld]", k, (long)((uintptr_t)p >> 20), (long)((uintptr_t)p & 0xfffff)); }
static void obs(void) {
    jl(",\"live\":[");
    for (int i = 0; i < NB; i++) jl("%s[%d,%d]", i ? "," : "", B[i].id, intact(B[i].p, B[i].n, B[i].id));
    jl("],\"cc\":%zu,\"fs\":%zu", aa_mem_region_chunk_count(R), aa_mem_region_freesize(R));
    addr("head", aa_mem_region_ptr(R));
    jl("}"); jflush();
}
static void trace_begin(void) { R = NULL; NB = 0; NEXT = 1; NMK = 0; TMPP = NULL; TMPN = 0; }
static void trace_end(void) { if (R) aa_mem_region_destroy(R); R = NULL; }
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (!strcmp(op, "init")) { R = aa_mem_region_create((size_t)ti(1)); jl("{\"op\":\"init\",\"n\":%ld", ti(1)); obs(); return; }
    if (!R) bad_script("no region", op);
    if (!strcmp(op, "alloc") || !strcmp(op, "zalloc") || !strcmp(op, "dup") || !strcmp(op, "strdup") || !strcmp(op, "printf")) {
        size_t n = (size_t)ti(1); uint8_t *p; int id = NEXT++, cont = 1; uint8_t *src = malloc(n + 1);
        /* printable, NUL-free pattern for the string kinds */
        for (size_t i = 0; i < n; i++) src[i] = (uint8_t)('a' + (i * 7 + (size_t)id) % 26);
        if (!strcmp(op, "alloc")) p = aa_mem_region_alloc(R, n);
        else if (!strcmp(op, "zalloc")) { p = aa_mem_region_zalloc(R, n); for (size_t i = 0; i < n; i++) if (p[i]) cont = 0; }
        else if (!strcmp(op, "dup")) { p = aa_mem_region_dup(R, src, n); cont = !memcmp(p, src, n); }
        else { if (n < 1) bad_script("n", op); src[n - 1] = 0;
            if (!strcmp(op, "strdup")) p = (uint8_t*)aa_mem_region_strdup(R, (char*)src);
            else p = (uint8_t*)aa_mem_region_printf(R, "%s", (char*)src);
            cont = !memcmp(p, src, n); }
        free(src);
        jl("{\"op\":\"alloc\",\"k\":\"%s\",\"n\":%zu,\"id\":%d,\"cont\":%d", op, n, id, cont); addr("a", p);
        fill(p, n, id);
        if (NB >= MAXB) bad_script("too many", op);
        B[NB].p = p; B[NB].n = n; B[NB].id = id; NB++; TMPP = NULL;
        obs();
    } else if (!strcmp(op, "tmpalloc") || !strcmp(op, "tmprealloc")) {
        size_t n = (size_t)ti(1); int re = !strcmp(op, "tmprealloc"); int kept = 1;
        if (re && !TMPP) { op = "tmpalloc"; re = 0; }
        uint8_t *p = re ? aa_mem_region_tmprealloc(R, n) : aa_mem_region_tmpalloc(R, n);
        if (re) { size_t m = TMPN < n ? TMPN : n; kept = intact(p, m, TMPID); }
        TMPID = 100000 + NEXT; TMPP = p; TMPN = n; fill(p, n, TMPID);
        jl("{\"op\":\"%s\",\"n\":%zu,\"kept\":%d", op, n, kept); addr("a", p); obs();
    } else if (!strcmp(op, "mark")) {
        if (NMK >= 64) bad_script("marks", op);
        MK[NMK].p = aa_mem_region_ptr(R); MK[NMK].nb = NB; NMK++; TMPP = NULL;
        jl("{\"op\":\"mark\""); obs();
    } else if (!strcmp(op, "pop")) { /* pop the k-th oldest live block (1-based) */
        int k = (int)ti(1); if (k < 1 || k > NB) bad_script("pop index", op);
        aa_mem_region_pop(R, B[k-1].p); NB = k - 1; TMPP = NULL;
        while (NMK && MK[NMK-1].nb > NB) NMK--;
        jl("{\"op\":\"pop\",\"k\":%d", k); obs();
    } else if (!strcmp(op, "popmark")) { /* pop to the k-th mark */
        int k = (int)ti(1); if (k < 1 || k > NMK) bad_script("mark index", op);
        aa_mem_region_pop(R, MK[k-1].p); NB = MK[k-1].nb; NMK = k - 1; TMPP = NULL;
        jl("{\"op\":\"popmark\",\"k\":%d", k); obs();
    } else if (!strcmp(op, "release")) {
        aa_mem_region_release(R); NB = 0; NMK = 0; TMPP = NULL;
        jl("{\"op\":\"release\""); obs();
    } else bad_script("op", op);
}
DRV_MAIN
