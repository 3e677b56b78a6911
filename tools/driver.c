/* Replays scripts of API calls on the real library, one process per case, and
 * records every observable event as one JSON line. */
#define _GNU_SOURCE
#include "driver.h"
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

int __asan_address_is_poisoned(void const volatile *addr);
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

/* ---- allocations made while the library runs ---- */
#define NLIVE (1 << 19)
static const volatile void *live[NLIVE];
static int nlive, inlib;
static long oomk; static int oomhit;
static unsigned slot(const volatile void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % NLIVE; }
static void on_malloc(const volatile void *p, size_t n) {
    (void)n;
    if (!inlib || !p) return;
    for (unsigned s = slot(p), k = 0; k < NLIVE; s = (s + 1) % NLIVE, k++)
        if (!live[s] || live[s] == (void *)1) { live[s] = p; nlive++; return; }
}
static void on_free(const volatile void *p) {
    if (!p) return;
    for (unsigned s = slot(p), k = 0; k < NLIVE && live[s]; s = (s + 1) % NLIVE, k++)
        if (live[s] == p) { live[s] = (void *)1; nlive--; return; }
}
static int fault(void) { if (inlib && oomk > 0 && --oomk == 0) { oomhit = 1; return 1; } return 0; }
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
char *__real_strdup(const char *), *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { return fault() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return fault() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return fault() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return fault() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return fault() ? NULL : __real_strndup(s, n); }

/* ---- recording ---- */
static int evfd = -1, outfd, errfd, probe[2];
static char buf[1 << 19]; static size_t bl;
static char outbuf[1 << 16];
static void put(const char *f, ...) {
    va_list a; va_start(a, f);
    int n = vsnprintf(buf + bl, sizeof buf - bl, f, a);
    va_end(a);
    if (n > 0) { bl += (size_t)n; if (bl >= sizeof buf) bl = sizeof buf - 1; }
}
static void putstr(const char *s, size_t n) {
    put("\"");
    for (size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') put("\\%c", c);
        else if (c < 32 || c > 126) put("\\u%04x", c);
        else put("%c", c);
    }
    put("\"");
}
static void putz(const char *s) { putstr(s, strlen(s)); }
static void flush_ev(void) {
    put("\n");
    for (size_t o = 0; o < bl;) { ssize_t w = write(evfd, buf + o, bl - o); if (w <= 0) _exit(98); o += (size_t)w; }
    bl = 0;
}
static void capture(const char *key, int fd) {
    static char tmp[1 << 17];
    ssize_t n = pread(fd, tmp, sizeof tmp, 0);
    if (ftruncate(fd, 0)) _exit(98);
    lseek(fd, 0, SEEK_SET);
    put(",\"%s\":", key);
    putstr(tmp, n > 0 ? (size_t)n : 0);
}
static void outputs(void) { fflush(stdout); capture("out", 1); capture("errout", 2); }

/* ---- values ---- */
static int readable(const char *p) {
    if ((uintptr_t)p < 0x10007fff8000) return 0;   /* below: nothing mapped, or the shadow itself */
    if (syscall(SYS_write, probe[1], p, 1) != 1) return 0;   /* not write(): ASan would look first */
    char c; if (read(probe[0], &c, 1) != 1) return 0;
    return !__asan_address_is_poisoned(p);
}
static size_t safelen(const char *p) {
    size_t n = 0;
    for (;; n++) {
        if (n && (((uintptr_t)(p + n)) & 4095) == 0 && !readable(p + n)) return n;
        if (__asan_address_is_poisoned(p + n) || p[n] == 0 || n > 20000) return n;
    }
}
static void canon(double d, char *o) {
    if (d == 0) { strcpy(o, "f:0"); return; }
    if (isnan(d)) { strcpy(o, "f:nan"); return; }
    if (isinf(d)) { strcpy(o, d < 0 ? "f:-1e9999" : "f:1e9999"); return; }
    char t[64]; int p;
    for (p = 0; p < 18; p++) { snprintf(t, sizeof t, "%.*e", p, d); if (strtod(t, NULL) == d) break; }
    char dig[40]; int k = 0; char *e = strchr(t, 'e');
    for (char *q = t; q < e; q++) if (*q >= '0' && *q <= '9') dig[k++] = *q;
    while (k > 1 && dig[k - 1] == '0') k--;
    dig[k] = 0;
    sprintf(o, "f:%s%se%d", d < 0 ? "-" : "", dig, atoi(e + 1) + 1);
}
/* decimals that round to d: exact end points of the interval */
static void decimal(long double x, char *o) {
    char t[200]; snprintf(t, sizeof t, "%.*Le", 130, x);
    char dig[160]; int k = 0; char *e = strchr(t, 'e');
    for (char *q = t; q < e; q++) if (*q >= '0' && *q <= '9') dig[k++] = *q;
    while (k > 1 && dig[k - 1] == '0') k--;
    dig[k] = 0;
    sprintf(o, "f:%s%se%d", x < 0 ? "-" : "", dig, atoi(e + 1) + 1);
}
static void interval(double d) {
    char a[200], b[200]; uint64_t u; memcpy(&u, &d, 8);
    if (isnan(d)) return;
    double up = nextafter(d, INFINITY), lo = nextafter(d, -INFINITY);
    if (isinf(d)) {         /* from half way beyond the greatest double */
        decimal(d < 0 ? -0x1.fffffffffffff8p1023L : 0x1.fffffffffffff8p1023L, a);
        if (d < 0) put(",\"F:f:-1e999999999;%s\"", a); else put(",\"F:%s;f:1e999999999\"", a);
        return;
    }
    decimal(isinf(lo) ? -0x1.fffffffffffff8p1023L : ((long double)lo + d) / 2, a);
    decimal(isinf(up) ? 0x1.fffffffffffff8p1023L : ((long double)up + d) / 2, b);
    put(",\"%c:%s;%s\"", u & 1 ? 'G' : 'F', a, b);   /* G: the ends round to the even neighbours */
}
static void cands(argus_value_t v) {
    char t[80];
    put("[\"i:%lld\"", (long long)v.as_int64);
    canon(v.as_float, t); put(",\"%s\"", t); interval(v.as_float);
    if ((v.raw & 255) < 2) put(",\"b:%d\"", (int)(v.raw & 255));
    if (v.raw == 0) put(",\"N\"");
    else if (readable(v.as_string)) {
        size_t n = safelen(v.as_string);
        put(",\"s:"); size_t at = bl; putstr(v.as_string, n); memmove(buf + at, buf + at + 1, bl - at); bl--;
    }
    put("]");
}
static int sameraw(argus_value_t a, argus_value_t b) { return memcmp(&a, &b, sizeof a) == 0; }

/* ---- callbacks ---- */
static void cb(const char *e, const char *o, const char *id, const char *raw) {
    int was = inlib; inlib = 0;
    put("{\"e\":\"%s\",\"o\":", e); putz(o); put(",\"id\":"); putz(id); put(",\"raw\":");
    if (raw == NULL) put("\"N\"");
    else if (raw[0] == 1) put("\"\"");
    else { put("\"s:"); size_t at = bl; putz(raw); memmove(buf + at, buf + at + 1, bl - at); bl--; }
    put("}"); flush_ev(); inlib = was;
}
static void ask(const char *e, char kind, const char *p);
static argus_t *cur_parser;
/* a validator asks for another option of the parser it was given */
static void see(argus_t *a, struct cbctx *c) {
    if (!*c->see) return;
    int was = inlib; argus_t *keep = cur_parser; argus_error_type_t code = a->error_code;
    cur_parser = a; inlib = 0; ask("see", '?', c->see);
    cur_parser = keep; a->error_code = code; inlib = was;
}
int drv_pre(argus_t *a, void *value, validator_data_t data) {
    struct cbctx *c = (struct cbctx *)data.custom;
    cb("pre", c->o, c->id, value); see(a, c);
    return value && (!strcmp(c->bad, "*") || !strcmp(c->bad, value)) ? c->rc : 0;
}
int drv_post(argus_t *a, void *option, validator_data_t data) {
    struct cbctx *c = (struct cbctx *)data.custom; argus_option_t *o = option;
    cb("post", c->o, c->id, "\001"); see(a, c);
    if (!*c->bad) return 0;
    if (!strcmp(c->bad, "*")) return c->rc;
    return o->value_type == VALUE_TYPE_STRING && o->value.as_string && !strcmp(o->value.as_string, c->bad) ? c->rc : 0;
}
int drv_handler(argus_option_t *o, char *value, const char *bad, int rc) {
    cb("h", o->name, "", value);
    if (value && *bad && !strcmp(value, bad)) return rc;
    if (value) o->value.as_string = value; else o->value.as_bool = true;
    return 0;
}
/* a custom option: the text, and behind it a second allocation its free handler has to release too */
#define TWIN(p) ((void **)((p) + (strlen(p) / 8 + 1) * 8))
int drv_own_free(argus_option_t *o) {
    char *p = o->value.as_ptr;
    if (p) { free(*TWIN(p)); free(p); }
    return 0;
}
int drv_own(argus_option_t *o, char *value, const char *bad, int rc) {
    cb("h", o->name, "", value);
    if (o->is_allocated) { drv_own_free(o); o->is_allocated = false; o->value.as_ptr = NULL; }
    char *p = malloc((strlen(value) / 8 + 2) * 8);
    if (!p) return ARGUS_ERROR_MEMORY;
    strcpy(p, value);
    *TWIN(p) = NULL;
    o->value.as_ptr = p; o->is_allocated = true;
    if (!(*TWIN(p) = malloc(24))) return ARGUS_ERROR_MEMORY;
    return *bad && !strcmp(value, bad) ? rc : 0;
}
static int cookie, nact;
static void *given = &cookie;
int drv_action(const char *name, void *data, int rc) {
    int was = inlib; inlib = 0;
    char t[200];
    snprintf(t, sizeof t, "%s%s", name, data == given ? "" : "!data");
    size_t n = strlen(outbuf);
    snprintf(outbuf + n, sizeof outbuf - n, "%s\"%s\"", nact++ ? "," : "", t);
    inlib = was;
    return rc;
}

static int exit_live(void), exit_fds(void);
static void on_leave(int code, void *arg) {
    (void)arg;
    int l = exit_live();
    inlib = 0;
    put("{\"e\":\"exit\",\"code\":%d", code); outputs(); put(",\"live\":%d,\"fd\":%d,\"oom\":%s}", l, exit_fds(), oomhit ? "true" : "false"); flush_ev();
}

/* ---- script ---- */
static char *text, *cur, *line; static size_t lcap;
static int next(void) {
    if (!*cur) return 0;
    size_t n = strcspn(cur, "\n");
    if (n + 1 > lcap) line = realloc(line, lcap = 2 * n + 64);
    memcpy(line, cur, n); line[n] = 0;
    cur += n + (cur[n] == '\n');
    return 1;
}
static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char *unhex(const char *h) {
    size_t n = 0; while (h[n] && h[n] != ' ') n++;
    char *r = malloc(n / 2 + 1);
    for (size_t i = 0; i < n / 2; i++) r[i] = (char)(hexd(h[2 * i]) * 16 + hexd(h[2 * i + 1]));
    r[n / 2] = 0;
    return r;
}
/* errno may hold anything when the library is called */
#define LIB(x) do { inlib = 1; errno = ERANGE; x; inlib = 0; } while (0)
/* descriptors the library keeps open */
static int fdbase;
static int nfds(void) { int n = 0, was = errno; for (int i = 0; i < 100; i++) n += fcntl(i, F_GETFD) != -1; errno = was; return n; }
static char *image(char **v) {      /* contents of a vector of strings */
    size_t n = 1; char *r;
    for (char **p = v; p && *p; p++) n += strlen(*p) + 20;
    r = calloc(1, n);
    size_t k = 0;
    for (char **p = v; p && *p; p++) k += (size_t)sprintf(r + k, "%p%s\n", (void *)*p, *p);
    return r;
}

/* the i-th argument of every parse of one table at one address, in every other case */
static int fixed;
static char *place(int table, int i, char *s) {
    static char *at[64][24];
    size_t n = strlen(s) + 1;
    if (!fixed || table >= 64 || i >= 24 || n > 64) return s;
    if (!at[table][i] && !(at[table][i] = malloc(64))) return s;
    memset(at[table][i], 0, 64); memcpy(at[table][i], s, n); free(s);
    return at[table][i];
}

/* one parser per table; the script switches between them */
static argus_t *parsers;
#define A (*cur_parser)
static struct table *T;
static int *started, *held, base;     /* allocations each parser holds while another one is used */
#define LIVE (nlive - base)
static void init(void) {
    LIB(A = argus_init(T->root, T->prog, T->ver));
    A.description = T->desc; A.env_prefix = T->prefix;
    if (T->w) A.helper.config.max_line_width = T->w;
    if (T->col) A.helper.config.description_column = T->col;
    if (T->ind) A.helper.config.option_indent = T->ind;
    if (T->hl) A.helper.config.smart_hint_max_length = T->hl;
    A.helper.config.smart_hint_allow_spaces = T->sp;
}
static int exit_live(void) { return LIVE; }
static int exit_fds(void) { return nfds() - fdbase; }
static void use(int k) {
    int old = (int)(T - tables);
    held[old] = LIVE;
    base = nlive - held[k];
    T = &tables[k]; cur_parser = &parsers[k];
    if (!started[k]) { started[k] = 1; init(); }
}
static void ask(const char *e, char kind, const char *p) {
    argus_value_t v, z = {0}, w; int set, gerr, aerr, merr, agree = 1, zero = 1, before = nlive; size_t cnt;
    A.error_code = 77;
    LIB(v = argus_get(&A, p)); gerr = A.error_code;
    LIB(set = argus_is_set(&A, p)); LIB(cnt = argus_count(&A, p));
    put("{\"e\":\"%s\",\"p\":", e); putz(p);
    put(",\"gerr\":%d,\"v\":", gerr); cands(v);
    put(",\"set\":%s,\"cnt\":%zu", set ? "true" : "false", cnt);
    A.error_code = 77;
    LIB(w = argus_array_get(&A, p, cnt)); aerr = A.error_code; zero &= sameraw(w, z);
    if (kind == '?') kind = aerr == ARGUS_ERROR_INVALID_INDEX ? 'l' : 's';
    A.error_code = 77;
    LIB(w = argus_map_get(&A, p, "no such key")); merr = A.error_code; zero &= sameraw(w, z);
    if (kind == 's' && merr == ARGUS_ERROR_INVALID_KEY) kind = 'm';
    if (gerr != 0) kind = 's';
    A.error_code = 77;
    LIB(w = argus_array_get(&A, p, (size_t)-1)); if (A.error_code != aerr) aerr = -1; zero &= sameraw(w, z);
    A.error_code = 77;
    LIB(w = argus_array_get(&A, p, cnt + ((size_t)1 << 32))); if (A.error_code != aerr) aerr = -1; zero &= sameraw(w, z);
    A.error_code = 77;
    LIB(w = argus_array_get(&A, p, (size_t)1 << 32)); if (A.error_code != aerr) aerr = -1; zero &= sameraw(w, z);
    put(",\"els\":[");
    if (kind == 'l') for (size_t i = 0; i < cnt; i++) {
        if (i) put(",");
        if (v.as_array == NULL) { put("[\"null array\"]"); agree = 0; continue; }
        cands(v.as_array[i]);
        A.error_code = 77;
        LIB(w = argus_array_get(&A, p, i)); agree &= A.error_code == 0 && sameraw(w, v.as_array[i]);
    }
    if (kind == 'm') for (size_t i = 0; i < cnt; i++) {
        if (i) put(",");
        if (v.as_map == NULL) { put("[\"\",[\"null map\"]]"); agree = 0; continue; }
        put("["); putz(v.as_map[i].key ? v.as_map[i].key : "<null>"); put(","); cands(v.as_map[i].value); put("]");
        A.error_code = 77;
        if (v.as_map[i].key) {
            LIB(w = argus_map_get(&A, p, v.as_map[i].key));
            agree &= A.error_code == 0 && sameraw(w, v.as_map[i].value);
            /* a key that only starts like this one */
            char k[300]; snprintf(k, sizeof k, "%s~", v.as_map[i].key);
            LIB(w = argus_map_get(&A, p, k)); agree &= A.error_code == ARGUS_ERROR_INVALID_KEY && sameraw(w, z);
            /* the start of this one, this one in the other case, this one after something else */
            for (int how = 0; how < 4; how++) {
                snprintf(k, sizeof k, "%s%s", how == 3 ? "=" : "", v.as_map[i].key);
                size_t l = strlen(k), j; int known = 0;
                if (how == 0 && l) k[l - 1] = 0;
                if (how == 1 && l > 1) k[1] = 0;
                for (j = 0; how == 2 && k[j]; j++) k[j] = isupper((unsigned char)k[j]) ? (char)tolower((unsigned char)k[j]) : (char)toupper((unsigned char)k[j]);
                for (j = 0; j < cnt; j++) known |= v.as_map[j].key && !strcmp(v.as_map[j].key, k);
                if (known) continue;
                A.error_code = 77;
                LIB(w = argus_map_get(&A, p, k)); agree &= A.error_code == ARGUS_ERROR_INVALID_KEY && sameraw(w, z);
            }
        }
    }
    put("]");
    argus_array_it_t ai; argus_map_it_t mi; size_t n = 0, m = 0; bool b;
    LIB(ai = argus_array_it(&A, p)); LIB(mi = argus_map_it(&A, p));
    for (int round = 0; round < 3; round++) {
        size_t stop = round == 1 ? cnt / 2 : cnt + 2;   /* second round: reset halfway */
        size_t i = 0;
        for (; i < stop; i++) {
            LIB(b = argus_array_next(&ai)); if (!b) break;
            if (kind != 'l' || i >= cnt || !v.as_array || !sameraw(ai.value, v.as_array[i])) agree = 0;
        }
        if (round != 1) { if (round && i != n) agree = 0; n = i; LIB(b = argus_array_next(&ai)); if (b) agree = 0; }
        LIB(argus_array_reset(&ai));
        for (i = 0; i < stop; i++) {
            LIB(b = argus_map_next(&mi)); if (!b) break;
            if (kind != 'm' || i >= cnt || !v.as_map || !sameraw(mi.value, v.as_map[i].value) || mi.key != v.as_map[i].key) agree = 0;
        }
        if (round != 1) { if (round && i != m) agree = 0; m = i; LIB(b = argus_map_next(&mi)); if (b) agree = 0; }
        LIB(argus_map_reset(&mi));
    }
    /* iterators do not disturb each other: this one, one over the list or map queried before, nested ones */
    for (size_t i = 0; i < cnt && i < 6 && (kind == 'l' || kind == 'm') && agree; i++) {
        static char *other; argus_array_it_t ao; argus_map_it_t mo; size_t x = 0, y = 0;
        if (i == 0) { LIB(ai = argus_array_it(&A, p)); LIB(mi = argus_map_it(&A, p)); }
        const char *q = i % 2 && other ? other : p;
        LIB(ao = argus_array_it(&A, q)); LIB(mo = argus_map_it(&A, q));
        for (;;) { LIB(b = argus_array_next(&ao)); if (!b) break; x++; }
        for (;;) { LIB(b = argus_map_next(&mo)); if (!b) break; y++; }
        if (q == p && (x != (kind == 'l' ? cnt : 0) || y != (kind == 'm' ? cnt : 0))) agree = 0;
        LIB(b = argus_array_next(&ai)); if (b != (kind == 'l') || (b && !sameraw(ai.value, v.as_array[i]))) agree = 0;
        LIB(b = argus_map_next(&mi)); if (b != (kind == 'm') || (b && (!sameraw(mi.value, v.as_map[i].value) || mi.key != v.as_map[i].key))) agree = 0;
        if (i + 1 == cnt || i == 5) other = strdup(p);
    }
    /* the same questions again: nothing may have changed */
    A.error_code = 77;
    LIB(w = argus_get(&A, p)); agree &= A.error_code == gerr && sameraw(w, v);
    LIB(n = argus_count(&A, p) == cnt ? n : n + 1000000);
    if (gerr != 0) zero &= sameraw(v, z);
    put(",\"aerr\":%d,\"merr\":%d,\"agree\":%s,\"zero\":%s,\"itn\":%zu,\"mitn\":%zu,\"d\":%d}",
        aerr, merr, agree ? "true" : "false", zero ? "true" : "false", n, m, nlive - before);
    flush_ev();
}
/* one parse of "--name=text", "-- text" (positional) or nothing but the environment per text, each on a fresh parser */
static void batch(int n, char kind, const char *via, const char *name, const char *env) {
    put("{\"e\":\"batch\",\"r\":[");
    for (int i = 0; i < n; i++) {
        next();
        char *t = unhex(line + 2), *arg = malloc(strlen(name) + strlen(t) + 4); int rc;
        if (*via == 'l') sprintf(arg, "--%s=%s", name, t); else strcpy(arg, t);
        char *av[] = {T->prog ? strdup(T->prog) : NULL, *via == 'p' ? "--" : arg, *via == 'p' ? arg : NULL, NULL};
        if (*via == 'e') { setenv(env, t, 1); av[1] = NULL; }
        init();
        LIB(rc = argus_parse(&A, *via == 'l' ? 2 : *via == 'p' ? 3 : 1, av));
        fflush(stdout);
        put("%s{\"ok\":%s", i ? "," : "", rc == 0 ? "true" : "false");
        capture("txt", 2);
        if (ftruncate(1, 0)) _exit(98);
        lseek(1, 0, SEEK_SET);
        put(",\"v\":"); argus_value_t v = {0}; size_t cnt = 0;
        if (rc == 0) { LIB(v = argus_get(&A, name)); LIB(cnt = argus_count(&A, name)); }
        if (rc == 0 && kind == 's') cands(v); else put("[]");
        put(",\"els\":[");
        for (size_t k = 0; rc == 0 && kind != 's' && k < cnt; k++) {
            if (k) put(",");
            if (kind == 'l') { if (v.as_array) cands(v.as_array[k]); else put("[\"null array\"]"); }
            else { put("["); putz(v.as_map && v.as_map[k].key ? v.as_map[k].key : "<null>"); put(","); if (v.as_map) cands(v.as_map[k].value); else put("[]"); put("]"); }
        }
        put("]}");
        if (rc == 0) LIB(argus_free(&A));
        if (*via == 'e') unsetenv(env);
        free(t); free(arg); free(av[0]);
    }
    put("],\"live\":%d}", LIVE); flush_ev();
}
/* one parse with n * r elements for one option */
static void big(const char *vt, const char *via, long n, long r, long a, long b, const char *name, const char *env, const char *at) {
    char **av = calloc((size_t)(2 * n * r + 8), sizeof *av), *t = malloc((size_t)(n * r + 2) * (40 + strlen(name))), *p = t; int ac = 0, rc, agree = 1, m = *vt == 'm';
    av[ac++] = strdup(T->prog);
    if (*via == 'a') av[ac++] = "--";
    if (*via == 'l' || *via == 'r') p += sprintf(p, "--%s=", name);
    for (long j = 0; j < n * r; j++) {
        long x = (a * (j % n) + b) % n, y = m ? j : x;
        if (*via == 'r') { if (j == r) break; p += sprintf(p, "%s0-%ld", j ? "," : "", n - 1); continue; }
        if (*via == 'a') av[ac++] = p;
        else if (!strcmp(via, "each")) { av[ac++] = p; p += sprintf(p, "--%s", name) + 1; av[ac++] = p; }
        else if (j) *p++ = ',';
        if (m) p += sprintf(p, "k%ld=", 100000 + x);
        if (vt[1] == 's') p += sprintf(p, "w%ld", 100000 + y);
        else if (vt[1] == 'i') p += sprintf(p, "%ld", y);
        else if (vt[1] == 'b') p += sprintf(p, "%s", y % 2 ? "no" : "yes");
        else p += sprintf(p, "%ld.5", y);
        if (*via == 'a' || !strcmp(via, "each")) p++;
    }
    if (*via == 'l' || *via == 'r') av[ac++] = t;
    if (!strcmp(via, "env")) setenv(env, t, 1);
    init();
    LIB(rc = argus_parse(&A, ac, av));
    fflush(stdout); fflush(stderr);
    put("{\"e\":\"big\",\"rc\":%d,\"els\":[", rc);
    argus_value_t v = {0}; size_t cnt = 0, itn = 0; char k[40];
    if (rc == 0) {
        LIB(v = argus_get(&A, name)); LIB(cnt = argus_count(&A, name));
        for (const char *q = at; rc == 0 && *q; q++) {
            if (*q == ' ') continue;
            size_t i = strtoul(q, (char **)&q, 10); q--;
            if (i >= cnt) continue;
            argus_value_t w;
            if (m) { if (!v.as_map || !v.as_map[i].key) { put("[\"null\"]"); break; } snprintf(k, sizeof k, "%s", v.as_map[i].key); LIB(w = argus_map_get(&A, name, k)); if (!sameraw(w, v.as_map[i].value)) agree = 0; }
            else { LIB(w = argus_array_get(&A, name, i)); if (!v.as_array || !sameraw(w, v.as_array[i])) agree = 0; }
            if (buf[bl - 1] != '[') put(",");
            if (m) { put("["); putz(k); put(","); cands(w); put("]"); } else cands(w);
        }
        bool more;
        if (m) { argus_map_it_t it; LIB(it = argus_map_it(&A, name)); for (;;) { LIB(more = argus_map_next(&it)); if (!more) break; if (itn >= cnt || it.key != v.as_map[itn].key) agree = 0; itn++; } }
        else { argus_array_it_t it; LIB(it = argus_array_it(&A, name)); for (;;) { LIB(more = argus_array_next(&it)); if (!more) break; if (itn >= cnt || !sameraw(it.value, v.as_array[itn])) agree = 0; itn++; } }
        LIB(argus_free(&A));
    }
    put("],\"cnt\":%zu,\"itn\":%zu,\"agree\":%s,\"live\":%d}", cnt, itn, agree ? "true" : "false", LIVE); flush_ev();
    if (!strcmp(via, "env")) unsetenv(env);
    free(t); free(av[0]); free(av);
}
static int simple(const char *name, void (*f)(argus_t *)) {
    int before = nlive;
    LIB(f(&A));
    put("{\"e\":\"%s\"", name); outputs(); put(",\"d\":%d,\"live\":%d,\"fd\":%d}", nlive - before, LIVE, nfds() - fdbase); flush_ev();
    return 0;
}
static void run_case(int initev) {
    parsers = calloc((size_t)ntables, sizeof *parsers); started = calloc((size_t)ntables, sizeof *started); held = calloc((size_t)ntables, sizeof *held);
    cur_parser = &parsers[T - tables]; started[T - tables] = 1;
    if (!initev) init();
    while (next() && strcmp(line, "end")) {
        if (!strncmp(line, "parse ", 6)) {
            int na = 0, ne = 0, rc; long oom = 0;
            sscanf(line + 6, "%d %d %ld", &na, &ne, &oom);
            char **av = malloc((size_t)(na + 2) * sizeof *av); char *en[64];
            av[0] = strdup(T->prog);
            for (int i = 0; i < na; i++) { next(); av[i + 1] = place((int)(T - tables), i, unhex(line + 2)); }
            av[na + 1] = NULL;
            for (int i = 0; i < ne; i++) { next(); en[i] = unhex(line + 2); setenv(en[i], unhex(strchr(line + 2, ' ') + 1), 1); }
            oomhit = 0; oomk = oom;
            extern char **environ;
            char *arg0 = image(av), *env0 = image(environ);
            LIB(rc = argus_parse(&A, na + 1, av));
            oomk = 0;
            char *arg1 = image(av), *env1 = image(environ);
            put("{\"e\":\"parse\",\"rc\":%d,\"err\":%d", rc, A.error_code); outputs();
            put(",\"live\":%d,\"oom\":%s,\"fd\":%d,\"pure\":%s}", LIVE, oomhit ? "true" : "false", nfds() - fdbase, !strcmp(arg0, arg1) && !strcmp(env0, env1) ? "true" : "false"); flush_ev();
            free(arg0); free(arg1); free(env0); free(env1);
            for (int i = 0; i < ne; i++) unsetenv(en[i]);
        } else if (!strncmp(line, "q ", 2)) { char k = line[2]; char *p = unhex(line + 4); ask("q", k, p); }
        else if (!strncmp(line, "batch ", 6)) {
            int n; char k, via[8], *nm, *env, *p; int at;
            sscanf(line + 6, "%d %c %7s %n", &n, &k, via, &at);
            p = line + 6 + at; nm = unhex(p); p = strchr(p, ' '); env = unhex(p + 1);
            batch(n, k, via, nm, env);
        }
        else if (!strncmp(line, "big ", 4)) {
            char vt[4], via[8], *nm, *env, *p; long n, r, a, b; int at;
            sscanf(line + 4, "%3s %7s %ld %ld %ld %ld %n", vt, via, &n, &r, &a, &b, &at);
            p = line + 4 + at; nm = unhex(p); p = strchr(p, ' ') + 1; env = unhex(p); p = strchr(p, ' ') + 1;
            big(vt, via, n, r, a, b, nm, env, p);
        }
        else if (!strcmp(line, "exec")) {
            int rc, before = nlive; outbuf[0] = 0; nact = 0; given = given ? NULL : &cookie;
            LIB(rc = argus_exec(&A, given));
            put("{\"e\":\"exec\",\"rc\":%d,\"acts\":[%s]", rc, outbuf); outputs(); put(",\"d\":%d}", nlive - before); flush_ev();
        } else if (!strcmp(line, "hascmd")) {
            bool r; LIB(r = argus_has_command(&A));
            put("{\"e\":\"hascmd\",\"r\":%s}", r ? "true" : "false"); flush_ev();
        } else if (!strcmp(line, "free")) simple("free", argus_free);
        else if (!strcmp(line, "init")) init();
        else if (!strncmp(line, "use ", 4)) { use(atoi(line + 4)); put("{\"e\":\"use\",\"sc\":%d}", (int)(T - tables)); flush_ev(); }
        else if (!strcmp(line, "define")) { init(); put("{\"e\":\"init\""); outputs(); put(",\"live\":%d,\"fd\":%d}", LIVE, nfds() - fdbase); flush_ev(); }
        else if (!strcmp(line, "help")) simple("help", argus_print_help);
        else if (!strcmp(line, "usage")) simple("usage", argus_print_usage);
        else if (!strcmp(line, "version")) simple("version", argus_print_version);
        else if (!strcmp(line, "strerror")) {
            put("{\"e\":\"strerror\",\"t\":[");
            for (int i = 0; i <= 40; i++) { const char *s = argus_strerror((argus_error_type_t)i); if (i) put(","); putz(s ? s : "<null>"); }
            put("]}"); flush_ev();
        } else { fprintf(stderr, "bad line %s\n", line); _exit(97); }
    }
    put("{\"e\":\"fin\"}"); flush_ev();
    _exit(0);
}

int main(int argc, char **argv) {
    static char sbuf[1 << 17];
    if (argc < 3) return 2;
    int f = open(argv[1], O_RDONLY);
    off_t len = f < 0 ? 0 : lseek(f, 0, SEEK_END);
    text = calloc(1, (size_t)len + 1);
    if (f < 0 || pread(f, text, (size_t)len, 0) != len) return 2;
    cur = text; close(f);
    evfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    outfd = memfd_create("out", 0); errfd = memfd_create("err", 0);
    if (evfd < 0 || outfd < 0 || errfd < 0 || pipe(probe)) return 2;
    setvbuf(stdout, sbuf, _IOFBF, sizeof sbuf);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    int ntimeouts = 0, tmo = argc > 3 ? atoi(argv[3]) : 10;
    while (next()) {
        if (strncmp(line, "case ", 5)) continue;
        long id; int sc, initev = 0;
        sscanf(line + 5, "%ld %d %d", &id, &sc, &initev);
        put("{\"e\":\"case\",\"id\":%ld}", id); flush_ev();
        if (ftruncate(outfd, 0) || ftruncate(errfd, 0)) return 2;
        lseek(outfd, 0, SEEK_SET); lseek(errfd, 0, SEEK_SET);
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit fl = {200u << 20, 200u << 20};
            setrlimit(RLIMIT_FSIZE, &fl);
            alarm((unsigned)tmo);
            clearenv();
            int saved = dup(2); (void)saved;
            dup2(outfd, 1); dup2(errfd, 2);
            T = &tables[sc]; fixed = id % 2 == 0;
            on_exit(on_leave, NULL); fdbase = nfds();
            run_case(initev);
        }
        int st; if (pid < 0 || waitpid(pid, &st, 0) < 0) return 2;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            put("{\"e\":\"timeout\"}"); flush_ev();
            if (++ntimeouts >= 3) return 0;     /* enough seen; the rest would take for ever */
        }
        else if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
            static char tmp[4096]; ssize_t n = pread(errfd, tmp, sizeof tmp, 0);
            put("{\"e\":\"status\",\"st\":%d,\"why\":", st); putstr(tmp, n > 0 ? (size_t)n : 0); put("}"); flush_ev();
        }
        while (next() && strcmp(line, "end")) {}
    }
    return 0;
}
