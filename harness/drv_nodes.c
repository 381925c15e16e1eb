/* global node numberings: p4est_lnodes and p4est_nodes */
#include "drv.h"

static void put_lnodes (p4est_t *f, p4est_lnodes_t *ln)
{
  p4est_locidx_t i;
  size_t z;
  int j;
  locint ("n", ln->num_local_nodes); locint ("oc", ln->owned_count); locint ("off", (long) ln->global_offset);
  locint ("deg", ln->degree); locint ("vn", ln->vnodes); locint ("ne", ln->num_local_elements);
  sb_sep (&loc); sb_printf (&loc, "\"nl\":[");
  for (i = 0; i < ln->num_local_nodes - ln->owned_count; ++i) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) ln->nonlocal_nodes[i]); }
  sb_printf (&loc, "]");
  loclist ("goc", ln->global_owned_count, f->mpisize);
  loclist ("en", ln->element_nodes, ln->vnodes * ln->num_local_elements);
  sb_sep (&loc); sb_printf (&loc, "\"fc\":[");
  for (i = 0; i < ln->num_local_elements; ++i) {
    int hf[P4EST_FACES], any;
#ifdef P4_TO_P8
    int he[P8EST_EDGES];
    any = p8est_lnodes_decode (ln->face_code[i], hf, he);
#else
    any = p4est_lnodes_decode (ln->face_code[i], hf);
#endif
    sb_sep (&loc); sb_printf (&loc, "[");
    if (any) {
      for (j = 0; j < P4EST_FACES; ++j) { sb_sep (&loc); sb_printf (&loc, "%d", hf[j]); }
#ifdef P4_TO_P8
      for (j = 0; j < P8EST_EDGES; ++j) { sb_sep (&loc); sb_printf (&loc, "%d", he[j]); }
#endif
    }
    sb_printf (&loc, "]");
  }
  sb_printf (&loc, "],\"sh\":[");
  for (z = 0; z < ln->sharers->elem_count; ++z) {
    p4est_lnodes_rank_t *lr = p4est_lnodes_rank_array_index (ln->sharers, z);
    sb_sep (&loc); sb_printf (&loc, "[%d,[", lr->rank);
    for (i = 0; i < (p4est_locidx_t) lr->shared_nodes.elem_count; ++i) {
      sb_sep (&loc); sb_printf (&loc, "%ld", (long) *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, i));
    }
    sb_printf (&loc, "],%ld,%ld,%ld,%ld]", (long) lr->shared_mine_offset, (long) lr->shared_mine_count, (long) lr->owned_offset, (long) lr->owned_count);
  }
  sb_printf (&loc, "]");
}

/* value of local node i of a rank: (rank + 1) * 100000 + i, stored in the
 * first bytes of an item of size sz, the rest filled by a pattern */
static void val_set (void *p, size_t sz, int r, int i)
{
  size_t k; unsigned char *b = (unsigned char *) p; uint32_t v = (uint32_t) ((r + 1) * 100000 + i);
  memcpy (b, &v, 4);
  for (k = 4; k < sz; ++k) b[k] = (unsigned char) (hash64 (v * 64ull + k) & 255);
}
static long val_get (const void *p, size_t sz)
{
  size_t k; const unsigned char *b = (const unsigned char *) p; uint32_t v;
  memcpy (&v, b, 4);
  for (k = 4; k < sz; ++k) if (b[k] != (unsigned char) (hash64 (v * 64ull + k) & 255)) return -1;
  return (long) v;
}

static void put_indep (p4est_indep_t *q)
{
  sb_sep (&loc); sb_printf (&loc, "[%d,%d,%d", (int) q->p.piggy3.which_tree, (int) q->x, (int) q->y);
#ifdef P4_TO_P8
  sb_printf (&loc, ",%d", (int) q->z);
#endif
  sb_printf (&loc, ",%d,%d,%d]", (int) q->level, (int) q->p.piggy3.local_num, (int) q->pad8);
}
static void put_hang (int32_t t, p4est_qcoord_t x, p4est_qcoord_t y, p4est_qcoord_t zc, int lev, const p4est_locidx_t *dep, int n)
{
  int k;
  sb_sep (&loc); sb_printf (&loc, "[%d,%d,%d", (int) t, (int) x, (int) y);
#ifdef P4_TO_P8
  sb_printf (&loc, ",%d", (int) zc);
#else
  (void) zc;
#endif
  sb_printf (&loc, ",%d,[", lev);
  for (k = 0; k < n; ++k) { sb_sep (&loc); sb_printf (&loc, "%d", (int) dep[k]); }
  sb_printf (&loc, "]]");
}

/* bound the size of a numbering (all processes decide alike) */
static int too_many (p4est_t *f, int deg)
{
  double n = (double) f->global_num_quadrants;
  int i;
  for (i = 0; i < P4EST_DIM; ++i) n *= deg > 0 ? deg + 1 : 3;
  return n > 12000.;
}

int op_nodes (const char *k)
{
  if (!strcmp (k, "lnodes")) {
    /* lnodes s g deg itemsize */
    int s = toki (), g = toki (), deg = toki ();
    size_t sz = (size_t) toki (), z;
    p4est_t *f = drv_forest (s);
    p4est_lnodes_t *ln;
    p4est_locidx_t i;
    p4est_lnodes_buffer_t *b;
    sc_array_t *a;
    if (too_many (f, deg)) return 1;
    ln = p4est_lnodes_new (f, drv_ghost (g), deg);
    a = sc_array_new_size (sz, ln->num_local_nodes);
    preint ("s", s); preint ("g", g); preint ("deg", deg);
    put_lnodes (f, ln);
    /* values of the owner reach every sharer */
    for (i = 0; i < ln->num_local_nodes; ++i) val_set (sc_array_index (a, i), sz, rank, i);
    p4est_lnodes_share_owned (a, ln);
    sb_sep (&loc); sb_printf (&loc, "\"so\":[");
    for (i = 0; i < ln->num_local_nodes; ++i) { sb_sep (&loc); sb_printf (&loc, "%ld", val_get (sc_array_index (a, i), sz)); }
    sb_printf (&loc, "],\"sa\":[");
    for (i = 0; i < ln->num_local_nodes; ++i) val_set (sc_array_index (a, i), sz, rank, i);
    b = p4est_lnodes_share_all (a, ln);
    for (z = 0; z < ln->sharers->elem_count; ++z) {
      sc_array_t *rb = (sc_array_t *) sc_array_index (b->recv_buffers, z);
      sb_sep (&loc); sb_printf (&loc, "[");
      for (i = 0; i < (p4est_locidx_t) rb->elem_count; ++i) { sb_sep (&loc); sb_printf (&loc, "%ld", val_get (sc_array_index (rb, i), sz)); }
      sb_printf (&loc, "]");
    }
    sb_printf (&loc, "]");
    p4est_lnodes_buffer_destroy (b);
    sc_array_destroy (a);
    p4est_lnodes_destroy (ln);
    emit ("lnodes");
    return 1;
  }
  if (!strcmp (k, "plnodes")) {
    /* plnodes s g deg pfc [nv nf ne nc]: partition weighted by owned nodes */
    int s = toki (), g = toki (), deg = toki (), pfc = toki ();
    int nv = 0, nf = 0, ne = 0, nc = 1;
    p4est_t *f = drv_forest (s);
    void *up = f->user_pointer;
    if (deg > 0) {
      p4est_partition_lnodes (f, g < 0 ? NULL : drv_ghost (g), deg, pfc);
      nf = nv = deg - 1;
      if (P4EST_DIM == 3) { ne = deg - 1; nf *= deg - 1; nv *= deg - 1; }
      nv *= deg - 1;
    }
    else {
      nv = toki (); nf = toki (); ne = toki (); nc = toki ();
#ifdef P4_TO_P8
      p8est_partition_lnodes_detailed (f, g < 0 ? NULL : drv_ghost (g), nv, nf, ne, nc, pfc);
#else
      p4est_partition_lnodes_detailed (f, g < 0 ? NULL : drv_ghost (g), nv, nf, nc, pfc);
#endif
    }
    preint ("s", s); preint ("pfc", pfc); preint ("nv", nv); preint ("nf", nf); preint ("ne", ne); preint ("nc", nc);
    sb_sep (&loc); sb_printf (&loc, "\"up\":%d", f->user_pointer == up);
    put_state (f); emit ("plnodes");
    return 1;
  }
  if (!strcmp (k, "lnghost")) {
    /* lnghost s g deg nexpand: support the nodes, then expand by nodes */
    int s = toki (), g = toki (), deg = toki (), n = toki ();
    p4est_t *f = drv_forest (s);
    p4est_ghost_t *gn;
    p4est_lnodes_t *ln;
    if (too_many (f, deg)) return 1;
    gn = p4est_ghost_new (f, P4EST_CONNECT_FULL);
    ln = p4est_lnodes_new (f, gn, deg);
    p4est_ghost_destroy (gn);
    preint ("s", s); preint ("g", g); preint ("deg", deg); preint ("x", n);
    if (n < 0) p4est_ghost_support_lnodes (f, ln, drv_ghost (g));
    else p4est_ghost_expand_by_lnodes (f, ln, drv_ghost (g));
    put_ghost (f, drv_ghost (g));
    p4est_lnodes_destroy (ln);
    emit ("lnghost");
    return 1;
  }
  if (!strcmp (k, "nodes")) {
    /* nodes s g x: x = 1 if the forest is known to be balanced */
    int s = toki (), g = toki (), x = toki (), j, p;
    p4est_t *f = drv_forest (s);
    p4est_nodes_t *nd = p4est_nodes_new (f, g < 0 ? NULL : drv_ghost (g));
    size_t z, zz;
    p4est_locidx_t i, ni = (p4est_locidx_t) nd->indep_nodes.elem_count;
    preint ("s", s); preint ("g", g); preint ("x", x);
    locint ("nq", nd->num_local_quadrants); locint ("oc", nd->num_owned_indeps);
    locint ("os", nd->num_owned_shared); locint ("oo", nd->offset_owned_indeps);
    locint ("val", p4est_nodes_is_valid (f, nd));
    sb_sep (&loc); sb_printf (&loc, "\"in\":[");
    for (z = 0; z < nd->indep_nodes.elem_count; ++z) put_indep ((p4est_indep_t *) sc_array_index (&nd->indep_nodes, z));
    sb_printf (&loc, "],\"fh\":[");
    for (z = 0; z < nd->face_hangings.elem_count; ++z) {
#ifdef P4_TO_P8
      p8est_hang4_t *h = (p8est_hang4_t *) sc_array_index (&nd->face_hangings, z);
      put_hang (h->p.piggy.which_tree, h->x, h->y, h->z, h->level, h->p.piggy.depends, 4);
#else
      p4est_hang2_t *h = (p4est_hang2_t *) sc_array_index (&nd->face_hangings, z);
      put_hang (h->p.piggy.which_tree, h->x, h->y, 0, h->level, h->p.piggy.depends, 2);
#endif
    }
    sb_printf (&loc, "],\"eh\":[");
#ifdef P4_TO_P8
    for (z = 0; z < nd->edge_hangings.elem_count; ++z) {
      p8est_hang2_t *h = (p8est_hang2_t *) sc_array_index (&nd->edge_hangings, z);
      put_hang (h->p.piggy.which_tree, h->x, h->y, h->z, h->level, h->p.piggy.depends, 2);
    }
#endif
    sb_printf (&loc, "]");
    loclist ("ln", nd->local_nodes, P4EST_CHILDREN * nd->num_local_quadrants);
    loclist ("goc", nd->global_owned_indeps, nd->global_owned_indeps ? f->mpisize : 0);
    sb_sep (&loc); sb_printf (&loc, "\"nr\":[");
    for (i = 0; nd->nonlocal_ranks != NULL && i < ni - nd->num_owned_indeps; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", nd->nonlocal_ranks[i]); }
    /* sharers by node, read as documented */
    sb_printf (&loc, "],\"sh\":[");
    for (i = 0; i < ni; ++i) {
      p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, i);
      sb_sep (&loc); sb_printf (&loc, "[");
      if (in->pad8 > 0) {
        sc_recycle_array_t *ra = (sc_recycle_array_t *) sc_array_index (&nd->shared_indeps, (size_t) in->pad8 - 1);
        zz = nd->shared_offsets == NULL ? (size_t) in->pad16 : (size_t) nd->shared_offsets[i];
        if (zz < ra->a.elem_count)
          for (j = 0, p = in->pad8; j < p; ++j) { sb_sep (&loc); sb_printf (&loc, "%d", ((int *) sc_array_index (&ra->a, zz))[j]); }
      }
      sb_printf (&loc, "]");
    }
    sb_printf (&loc, "]");
    p4est_nodes_destroy (nd);
    emit ("nodes");
    return 1;
  }
  return 0;
}
