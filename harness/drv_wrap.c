/* p4est_wrap: the alternative interface for adaptive meshes */
#include "drv.h"

static struct { p4est_wrap_t *w; int up, st; } W[NSLOT];
void emit_mesh (p4est_t *f, p4est_ghost_t *gh, p4est_mesh_t *m, int s, int g, int kind, int flags, const char *rec);

static p4est_wrap_t *WS (int s)
{ if (s < 0 || s >= NSLOT || !W[s].w) { fprintf (stderr, "DRV: wrap slot %d empty\n", s); MPI_Abort (MPI_COMM_WORLD, 9); } return W[s].w; }

static void wdrop (int s)
{ if (W[s].w) { p4est_wrap_destroy (W[s].w); W[s].w = NULL; F[s].f = NULL; } }
/* copies hold references and go first */
void wrap_cleanup (void)
{
  int i;
  for (i = 0; i < NSLOT; ++i) if (W[i].w && W[i].w->conn_owner) wdrop (i);
  for (i = 0; i < NSLOT; ++i) wdrop (i);
}
static p4est_connectivity_t *conn_dup (p4est_connectivity_t *c)
{
  p4est_connectivity_t *d;
#ifdef P4_TO_P8
  d = p8est_connectivity_new_copy (c->num_vertices, c->num_trees, c->num_edges, c->num_corners,
    c->vertices, c->tree_to_vertex, c->tree_to_tree, c->tree_to_face, c->tree_to_edge, c->ett_offset,
    c->edge_to_tree, c->edge_to_edge, c->tree_to_corner, c->ctt_offset, c->corner_to_tree, c->corner_to_corner);
#else
  d = p4est_connectivity_new_copy (c->num_vertices, c->num_trees, c->num_corners,
    c->vertices, c->tree_to_vertex, c->tree_to_tree, c->tree_to_face,
    c->tree_to_corner, c->ctt_offset, c->corner_to_tree, c->corner_to_corner);
#endif
  return d;
}
static void put_counters (p4est_t *f)
{
  p4est_topidx_t t; size_t z;
  sb_sep (&loc); sb_printf (&loc, "\"ui\":[");
  for (t = f->first_local_tree; t <= f->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
    for (z = 0; z < tr->quadrants.elem_count; ++z) {
      sb_sep (&loc); sb_printf (&loc, "%d", f->data_size ? 0 : p4est_quadrant_array_index (&tr->quadrants, z)->p.user_int);
    }
  }
  sb_printf (&loc, "]");
}
static void put_idx (const char *n, sc_array_t *a)
{
  size_t z;
  sb_sep (&loc); sb_printf (&loc, "\"%s\":[", n);
  for (z = 0; a && z < a->elem_count; ++z) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) *(p4est_locidx_t *) sc_array_index (a, z)); }
  sb_printf (&loc, "]");
}
static void put_wrap (int s)
{
  p4est_wrap_t *w = W[s].w;
  put_state (w->p4est); put_counters (w->p4est);
  locint ("hl", w->params.hollow);
  locint ("na", w->newly_refined != NULL);
  put_idx ("nr", w->newly_refined); put_idx ("nc", w->newly_coarsened);
  locint ("pub", w->params.user_pointer == &W[s].up && w->p4est_dim == P4EST_DIM && w->p4est_half == P4EST_HALF
          && w->p4est_faces == P4EST_FACES && w->p4est_children == P4EST_CHILDREN
          && w->p4est->connectivity == w->conn);
}

int op_wrap (const char *k)
{
  if (!strcmp (k, "wnew")) {
    /* wnew s src kind flags delay level how; flags: 1 hollow, 2 partition for
     * coarsening, 4 store adapted, 8 affect, 16 replace callback */
    int s = toki (), c = toki (), kind = toki (), fl = toki (), delay = toki (), level = toki (), how = toki ();
    p4est_wrap_params_t pa;
    p4est_wrap_params_init (&pa);
    pa.hollow = fl & 1; pa.mesh_params.btype = drv_btype (kind);
    pa.partition_for_coarsening = (fl & 2) ? 1 : 0; pa.store_adapted = (fl & 4) ? 1 : 0;
    pa.coarsen_affect = (fl & 8) ? 1 : 0; pa.coarsen_delay = delay;
    pa.replace_fn = (fl & 16) ? drv_replace_fn : NULL;
    pa.user_pointer = &W[s].up;
    pa.mesh_params.compute_tree_index = 1; pa.mesh_params.compute_level_lists = 1;
    wdrop (s);
    if (F[s].f && how < 2) { p4est_destroy (F[s].f); F[s].f = NULL; }
    if (how == 0) { W[s].w = p4est_wrap_new_params (comm, conn_dup (C[c]), level, &pa); F[s].cslot = c; }
    else if (how == 1) {
      W[s].w = p4est_wrap_new_ext (comm, conn_dup (C[c]), level, fl & 1, drv_btype (kind), pa.replace_fn, &W[s].up);
      F[s].cslot = c; fl = (fl & ~12) | 2; delay = 0;
    }
    else {                      /* take over forest s */
      p4est_t *f = drv_forest (s);
      p4est_t *g = p4est_copy (f, hash64 (opno) & 1);
      p4est_destroy (f);
      g->connectivity = conn_dup (g->connectivity);
      g->user_pointer = NULL;
      if (how == 2) W[s].w = p4est_wrap_new_p4est_params (g, &pa);
      else { W[s].w = p4est_wrap_new_p4est (g, fl & 1, drv_btype (kind), pa.replace_fn, &W[s].up); fl = (fl & ~12) | 2; delay = 0; }
    }
    F[s].f = W[s].w->p4est; W[s].st = 0;
    preint ("s", s); preint ("cs", F[s].cslot); preint ("kind", kind); preint ("fl", fl);
    preint ("delay", delay); preint ("lev", level); preint ("how", how); preint ("fill", 1);
    put_wrap (s); emit ("wnew");
    return 1;
  }
  if (!strcmp (k, "wcopy")) {
    int s = toki (), d = toki (), dsz = toki ();
    wdrop (d);
    W[d].w = p4est_wrap_new_copy (WS (s), dsz, NULL, &W[d].up);
    F[d].f = W[d].w->p4est; F[d].cslot = F[s].cslot;
    preint ("s", s); preint ("d", d); preint ("dsz", dsz);
    put_wrap (d); 
    emit ("wcopy");
    return 1;
  }
  if (!strcmp (k, "wdrop")) { wdrop (toki ()); return 1; }
  if (!strcmp (k, "whollow")) {
    int s = toki (), h = toki ();
    p4est_wrap_set_hollow (WS (s), h);
    preint ("s", s); preint ("h", h); put_wrap (s); emit ("whollow");
    return 1;
  }
  if (!strcmp (k, "wdelay")) {
    int s = toki (), d = toki (), a = toki (), p = toki ();
    p4est_wrap_set_coarsen_delay (WS (s), d, a);
    if (p >= 0) p4est_wrap_set_partitioning (WS (s), p);
    preint ("s", s); preint ("delay", d); preint ("aff", a); preint ("pfc", p); put_wrap (s); emit ("wdelay");
    return 1;
  }
  if (!strcmp (k, "wmark")) {
    /* wmark s seed permille-refine permille-coarsen maxlevel: coarsen marks
     * are set for whole families of leaves that look alike; some leaves are
     * marked several times */
    int s = toki (), sd = toki (), pr = toki (), pc = toki (), ml = toki ();
    p4est_wrap_t *w = WS (s);
    p4est_t *f = w->p4est;
    p4est_topidx_t t; size_t z; p4est_locidx_t n = 0;
    long N = (long) f->global_num_quadrants, bud = P4EST_DIM == 2 ? 14 : 5;
    if (pr * N > 1000 * bud) pr = (int) (1000 * bud / N);
    if (N > (P4EST_DIM == 2 ? 90 : 80)) pr = 0;
    sb_sep (&loc); sb_printf (&loc, "\"mk\":[");
    for (t = f->first_local_tree; t <= f->last_local_tree; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
      for (z = 0; z < tr->quadrants.elem_count; ++z, ++n) {
        p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z), p = *q;
        p4est_qcoord_t h = P4EST_QUADRANT_LEN (q->level);
        int a[3], i, m = 0;
        p.x &= ~h; p.y &= ~h; p.level = q->level > 0 ? q->level - 1 : 0;
#ifdef P4_TO_P8
        p.z &= ~h;
#endif
        if ((int) (hashq (sd + 1, t, &p) % 1000) < pc) a[m++] = 1;
        if ((int) (hashq (sd, t, q) % 1000) < pr && q->level < ml) a[m++] = 0;
        if (hashq (sd + 2, t, q) % 12 == 0) a[m++] = (int) (hashq (sd + 3, t, q) & 1) || q->level >= ml || pr == 0;
        for (i = 0; i < m; ++i) {
          if (a[i]) p4est_wrap_mark_coarsen (w, t, (p4est_locidx_t) z); else p4est_wrap_mark_refine (w, t, (p4est_locidx_t) z);
          sb_sep (&loc); sb_printf (&loc, "[%d,%ld]", a[i], (long) n);
        }
      }
    }
    sb_printf (&loc, "]");
    preint ("s", s); emit ("wmark");
    return 1;
  }
  if (!strcmp (k, "wadapt")) {
    int s = toki (), r;
    p4est_wrap_t *w = WS (s);
    r = p4est_wrap_adapt (w);
    preint ("s", s); locint ("ret", r); put_wrap (s); put_cb (); emit ("wadapt");
    W[s].st = r ? 1 : 0;        /* where we are in the cycle */
    return 1;
  }
  if (!strcmp (k, "wpart")) {
    int s = toki (), ex = toki (), ask = toki (), r;
    p4est_wrap_t *w = WS (s);
    p4est_locidx_t u[3] = { -7, -7, -7 };
    p4est_topidx_t t; int mx = 0;
    if (W[s].st != 1) return 1; /* only after a change */
    for (t = w->p4est->first_local_tree; t <= w->p4est->last_local_tree; ++t)
      mx = SC_MAX (mx, (int) p4est_tree_array_index (w->p4est->trees, t)->maxlevel);
    PMPI_Allreduce (MPI_IN_PLACE, &mx, 1, MPI_INT, MPI_MAX, comm);
    if (mx > 10) ex = 0;
    r = p4est_wrap_partition (w, ex, (ask & 1) ? &u[0] : NULL, (ask & 2) ? &u[1] : NULL, (ask & 4) ? &u[2] : NULL);
    preint ("s", s); preint ("ex", ex); preint ("ask", ask); locint ("ret", r); loclist ("u", u, 3);
    put_wrap (s); emit ("wpart");
    W[s].st = r ? 2 : 0;
    return 1;
  }
  if (!strcmp (k, "wdone")) {
    int s = toki ();
    if (W[s].st != 2) return 1;
    p4est_wrap_complete (WS (s));
    W[s].st = 0;
    preint ("s", s); put_wrap (s); emit ("wdone");
    return 1;
  }
  if (!strcmp (k, "wleaf")) {
    int s = toki (), track = toki ();
    p4est_wrap_leaf_t *l;
    sb_sep (&loc); sb_printf (&loc, "\"lf\":[");
    for (l = p4est_wrap_leaf_first (WS (s), track); l != NULL; l = p4est_wrap_leaf_next (l)) {
      sb_sep (&loc);
      sb_printf (&loc, "[%d,%d,%d,%d,", (int) l->which_quad, (int) l->local_quad, l->is_mirror, P4EST_LEAF_IS_FIRST_IN_TREE (l));
      put_quad (&loc, l->which_tree, l->quad);
      sb_printf (&loc, ",%d]", l->pp == W[s].w && l->tree == p4est_tree_array_index (W[s].w->p4est->trees, l->which_tree));
    }
    sb_printf (&loc, "]");
    preint ("s", s); preint ("track", track); emit ("wleaf");
    return 1;
  }
  if (!strcmp (k, "wstruct")) { /* the current ghost layer and mesh */
    int s = toki (), kind = toki (), g = toki ();
    p4est_wrap_t *w = WS (s);
    p4est_ghost_t *gh = p4est_wrap_get_ghost (w);
    preint ("g", g); preint ("s", s); preint ("kind", kind);
    put_ghost (w->p4est, gh); emit ("wghost");
    sb_reset (&pre); sb_reset (&loc); sb_reset (&cb);
    emit_mesh (w->p4est, gh, p4est_wrap_get_mesh (w), s, g, kind, 3, "wmesh");
    return 1;
  }
  return 0;
}
