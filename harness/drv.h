/* Driver that executes operation scripts on the real library and records
 * what it did as one JSON line per operation.  Compiled once for 2D and once
 * for 3D.  It uses public API only. */
#ifndef DRV_H
#define DRV_H
#ifdef DRV3D
#include <p4est_to_p8est.h>
#include <p8est_extended.h>
#include <p8est_bits.h>
#include <p8est_algorithms.h>
#include <p8est_balance.h>
#include <p8est_build.h>
#include <p8est_communication.h>
#include <p8est_ghost.h>
#include <p8est_io.h>
#include <p8est_iterate.h>
#include <p8est_lnodes.h>
#include <p8est_mesh.h>
#include <p8est_nodes.h>
#include <p8est_plex.h>
#include <p8est_points.h>
#include <p8est_search.h>
#include <p8est_vtk.h>
#include <p8est_wrap.h>
#else
#include <p4est_extended.h>
#include <p4est_bits.h>
#include <p4est_algorithms.h>
#include <p4est_balance.h>
#include <p4est_build.h>
#include <p4est_communication.h>
#include <p4est_ghost.h>
#include <p4est_io.h>
#include <p4est_iterate.h>
#include <p4est_lnodes.h>
#include <p4est_mesh.h>
#include <p4est_nodes.h>
#include <p4est_plex.h>
#include <p4est_points.h>
#include <p4est_search.h>
#include <p4est_vtk.h>
#include <p4est_wrap.h>
#endif
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* growing string */
typedef struct { char *s; size_t n, cap; } sbuf;
void sb_printf (sbuf *b, const char *fmt, ...);
void sb_reset (sbuf *b);
/* comma unless after an opening bracket */
void sb_sep (sbuf *b);

#define NSLOT 16
typedef struct { p4est_t *f; int cslot; } fslot_t;
extern p4est_connectivity_t *C[NSLOT];
extern fslot_t F[NSLOT];
extern MPI_Comm comm;           /* communicator of the case */
extern int rank, nproc;         /* in comm */
extern char scratch[];          /* scratch directory */
extern int opno;                /* number of the operation in the case */
extern int caseno;
extern sbuf pre;                /* common part of the record (rank 0) */
extern sbuf loc;                /* per rank part: body of an object */
extern sbuf cb;                 /* callback log: body of an array */
extern int cbflags;             /* 1 init, 2 replace */
extern uint64_t opseed;

/* token reader of the current script line */
const char *tok (void);
int toki (void);
long tokl (void);
int tok_more (void);

/* record output: collective over comm */
void emit (const char *kind);
/* append ,"st":{...} of forest f to loc and replicated part to pre */
void put_state (p4est_t *f);
void put_quad (sbuf *b, p4est_topidx_t t, const p4est_quadrant_t *q);
void put_conn (sbuf *b, p4est_connectivity_t *c);
uint64_t hash64 (uint64_t x);
uint64_t hashq (uint64_t seed, p4est_topidx_t t, const p4est_quadrant_t *q);
uint64_t rnd (void);            /* per rank random stream, seeded per op */
void rnd_seed (uint64_t s);
void rnd_same (uint64_t s);

/* payload handling */
void payload_set (p4est_t *f, p4est_quadrant_t *q, int id);
int payload_get (p4est_t *f, p4est_quadrant_t *q);
void bytes_fill (void *p, size_t n, int id);
int bytes_get (const void *p, size_t n);
int new_id (void);
void drv_init_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q);
void drv_replace_fn (p4est_t *f, p4est_topidx_t t, int no,
                     p4est_quadrant_t *out[], int ni, p4est_quadrant_t *in[]);

/* predicates */
typedef struct { int kind; uint64_t seed; int pm, L, n; long *list; int budget; } pred_t;
void pred_parse (pred_t *p);
int pred_eval (pred_t *p, p4est_topidx_t t, const p4est_quadrant_t *q);
void pred_free (pred_t *p);

/* op modules: return 1 if handled */
typedef struct { p4est_ghost_t *g; int fslot; } gslot_t;
extern gslot_t GH[NSLOT];
p4est_t *drv_forest (int s);
p4est_ghost_t *drv_ghost (int g);
p4est_connect_type_t drv_btype (int kind);
void preint (const char *n, long v);
void locint (const char *n, long v);
void loclist (const char *n, const p4est_locidx_t *a, int len);
p4est_quadrant_t *drv_local (p4est_t *f, p4est_locidx_t i, p4est_topidx_t *t);
void ghost_cleanup (void);
void wrap_cleanup (void);
void put_ghost (p4est_t *f, p4est_ghost_t *g);
int op_ghost (const char *k);
int op_iter (const char *k);
int op_nodes (const char *k);
int op_mesh (const char *k);
int op_core (const char *k);
int op_conn (const char *k);
int op_struct (const char *k);
int op_search (const char *k);
void put_cb (void);
int op_misc (const char *k);
int op_bits (const char *k);
#endif
