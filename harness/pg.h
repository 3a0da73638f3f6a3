/* What the harnesses see of the stand-in for the server. */
#ifndef PG_H_STANDIN
#define PG_H_STANDIN
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*pgh_fn)(void *fcinfo, void *arg);
typedef struct { int n; int null[20]; char text[20][300]; unsigned long value[20]; double real[20]; void *ret; } Row;
void pgh_start(void);
void pgh_stop(void);
void *pgh_portal(void);
void pgh_end(void *portal);
int pgh_call(void *portal, pgh_fn f, void *arg);
int pgh_function(void *portal, void *f, const char *const *args, int n);
Row *pgh_row(void);
void pgh_text(char *to, size_t n);
const char *pgh_message(void);
const char *pgh_trouble(void);
int pgh_entries(void);
long pgh_bytes(void);
extern int pgh_columns;
extern const char *pgh_kinds;
#ifdef __cplusplus
}
#endif
#endif
