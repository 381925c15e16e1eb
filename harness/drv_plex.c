/* conforming cell complex: p4est_get_plex_data */
#include "drv.h"
#ifndef P4_TO_P8
#include <p4est_plex.h>
#else
#include <p8est_plex.h>
#endif

static void arr (const char *k, sc_array_t *a, int per)
{
  loclist (k, (p4est_locidx_t *) a->array, (int) (per * a->elem_count));
}

int op_plex (const char *k)
{
  if (!strcmp (k, "plex")) {
    /* plex s overlap custom */
    int s = toki (), ov = toki (), cu = toki (), i, j, big = 0;
    p4est_t *f = drv_forest (s);
    p4est_connectivity_t *c = f->connectivity;
    p4est_ghost_t *g = NULL;
    p4est_lnodes_t *ln = NULL;
    p4est_locidx_t flq = -1;
    size_t z;
    sc_array_t *a[10];
    if (c->num_vertices <= 0) return 1;
    for (i = 0; i < 10; ++i) a[i] = sc_array_new (i == 4 ? 3 * sizeof (double) : i == 9 ? 2 * sizeof (p4est_locidx_t) : sizeof (p4est_locidx_t));
    if (cu < 0) {
      p4est_get_plex_data (f, P4EST_CONNECT_FULL, ov, &flq, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
      /* the ghost layer once more for the record */
      g = p4est_ghost_new (f, P4EST_CONNECT_FULL);
      ln = p4est_lnodes_new (f, g, -P4EST_DIM);
      if (ov) p4est_ghost_support_lnodes (f, ln, g);
      for (i = 1; i < ov; ++i) p4est_ghost_expand_by_lnodes (f, ln, g);
    }
    else
      p4est_get_plex_data_ext (f, &g, &ln, P4EST_CONNECT_FULL, ov, &flq, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], cu);
    preint ("s", s); preint ("ov", ov); preint ("cu", cu);
    if (rank == 0) {
      for (i = 0; i < 3 * c->num_vertices; ++i) if (!(c->vertices[i] > -20. && c->vertices[i] < 20.)) big = 1;
      sb_sep (&pre); sb_printf (&pre, "\"tv\":[");
      if (!big) for (i = 0; i < c->num_trees; ++i) {
        sb_sep (&pre); sb_printf (&pre, "[");
        for (j = 0; j < P4EST_CHILDREN; ++j) {
          double *v = &c->vertices[3 * c->tree_to_vertex[i * P4EST_CHILDREN + j]];
          sb_sep (&pre); sb_printf (&pre, "[%ld,%ld,%ld]", lrint (v[0] * 10000.), lrint (v[1] * 10000.), lrint (v[2] * 10000.));
        }
        sb_printf (&pre, "]");
      }
      sb_printf (&pre, "]");
    }
    locint ("flq", flq);
    arr ("ppd", a[0], 1); arr ("csz", a[1], 1); arr ("cn", a[2], 1); arr ("or", a[3], 1);
    sb_sep (&loc); sb_printf (&loc, "\"co\":[");
    for (z = 0; z < a[4]->elem_count; ++z) {
      double *v = (double *) sc_array_index (a[4], z);
      int bad = 0;
      for (j = 0; j < 3; ++j) if (!(v[j] > -100. && v[j] < 100.)) bad = 1;
      sb_sep (&loc);
      if (bad) sb_printf (&loc, "[9999999,9999999,9999999]");
      else sb_printf (&loc, "[%ld,%ld,%ld]", lrint (v[0] * 10000.), lrint (v[1] * 10000.), lrint (v[2] * 10000.));
    }
    sb_printf (&loc, "]");
    arr ("ch", a[5], 1); arr ("pa", a[6], 1); arr ("ci", a[7], 1); arr ("lv", a[8], 1); arr ("rm", a[9], 2);
    sb_sep (&loc); sb_printf (&loc, "\"g\":[");
    for (i = 0, z = 0; z < g->ghosts.elem_count; ++z) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&g->ghosts, z);
      put_quad (&loc, q->p.piggy3.which_tree, q);
    }
    sb_printf (&loc, "]");
    loclist ("po", g->proc_offsets, f->mpisize + 1);
    for (i = 0; i < 10; ++i) sc_array_destroy (a[i]);
    p4est_lnodes_destroy (ln);
    p4est_ghost_destroy (g);
    emit ("plex");
    return 1;
  }
  return 0;
}
