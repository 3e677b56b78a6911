/* Runtime shared by the driver and the generated option tables. */
#ifndef DRIVER_H
#define DRIVER_H
#include "argus.h"
#include "argus/regex.h"
#include "argus/errors.h"
#include <limits.h>
#include <stdint.h>

struct table {
    argus_option_t *root;
    const char *prog, *ver, *desc, *prefix;
    size_t w, col, ind, hl;
    bool sp;
};
struct cbctx { const char *o, *id, *bad; int rc; const char *see; };
extern struct table tables[];
extern const int ntables;

int drv_pre(argus_t *a, void *value, validator_data_t data);
int drv_post(argus_t *a, void *option, validator_data_t data);
int drv_handler(argus_option_t *o, char *value, const char *bad, int rc);
int drv_own(argus_option_t *o, char *value, const char *bad, int rc);
int drv_own_free(argus_option_t *o);
int drv_action(const char *name, void *data, int rc);
#define CTX(o, id, bad, rc, see) ((validator_data_t){.custom = (uintptr_t)&(struct cbctx){o, id, bad, rc, see}})
#endif
