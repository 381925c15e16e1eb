/* building forests, points, data transfer, reduced communicators */
#include "drv.h"

static void add_init (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q)
{
  int id = new_id ();
  payload_set (f, q, id);
  sb_sep (&cb); sb_printf (&cb, "[\"j\",");
  put_quad (&cb, t, q);
  sb_printf (&cb, ",%d]", f->data_size > 0 && f->data_size < 4 ? (id & 0x7f) : f->data_size ? id : 0);
}
static void put_ilist (const char *n, const int *a, int len)
{ int i; sb_sep (&loc); sb_printf (&loc, "\"%s\":[", n); for (i = 0; i < len; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", a[i]); } sb_printf (&loc, "]"); }
static int mark;

static int ends_before (const p4est_quadrant_t *a, const p4est_quadrant_t *b)
{ p4est_quadrant_t l; p4est_quadrant_last_descendant (a, &l, P4EST_QMAXLEVEL); return p4est_quadrant_compare (&l, b) < 0; }

typedef struct { p4est_build_t *b; pred_t *p; int mode; p4est_quadrant_t prev; p4est_topidx_t pt; sbuf *ad; int k; } bctx_t;
static void try_add (bctx_t *c, p4est_tree_t *tr, p4est_topidx_t t, p4est_quadrant_t *leaf)
{
  p4est_quadrant_t q = *leaf, a, fd, ld;
  int r, m = c->mode;
  if (c->pt != t) c->prev.level = -1;
  if (!pred_eval (c->p, t, leaf)) return;
  if (c->prev.level >= 0) {
    p4est_quadrant_first_descendant (leaf, &fd, P4EST_QMAXLEVEL);
    if (!ends_before (&c->prev, &fd)) return;
  }
  if (m == 3) m = (int) (rnd () % 3);
  if (m == 1) {
    while (q.level > 0) {
      p4est_quadrant_parent (&q, &a);
      p4est_quadrant_first_descendant (&a, &fd, P4EST_QMAXLEVEL);
      p4est_quadrant_last_descendant (&a, &ld, P4EST_QMAXLEVEL);
      if (p4est_quadrant_compare (&fd, &tr->first_desc) < 0 || p4est_quadrant_compare (&tr->last_desc, &ld) < 0) break;
      if (c->prev.level >= 0 && !ends_before (&c->prev, &fd)) break;
      if (rnd () % 3 == 0) break;
      q = a;
    }
  }
  else if (m == 2) {
    int n = 1 + (int) (rnd () % 3);
    while (n-- > 0 && q.level < P4EST_QMAXLEVEL) { p4est_quadrant_child (&q, &a, (int) (rnd () % P4EST_CHILDREN)); q = a; }
  }
  q.p.user_data = NULL;
  r = p4est_build_add (c->b, t, &q);
  sb_sep (c->ad); sb_printf (c->ad, "["); put_quad (c->ad, t, &q); sb_printf (c->ad, ",%d", r);
  if (rnd () % 4 == 0) { r = p4est_build_add (c->b, t, &q); sb_printf (c->ad, ",%d]", r); }
  else sb_printf (c->ad, ",0]");
  c->prev = q; c->pt = t;
}
static bctx_t *bc;
static int bld_search (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t ln, void *pt)
{
  (void) pt;
  if (ln >= 0) try_add (bc, p4est_tree_array_index (f->trees, t), t, q);
  return 1;
}

/* send byte strings: values are functions of the global number */
static int nbytes_of (long g, long seed) { return (int) (hash64 (g * 31 + seed) % 5); }
static unsigned char val_of (long g, long j, long seed) { return (unsigned char) (hash64 (g * 1009 + j * 17 + seed) % 251); }

/* counters and content of a tree of our own; frees it */
static void put_tree (p4est_t *f, p4est_topidx_t t, p4est_tree_t *tr)
{
  size_t zz; int i;
  sb_sep (&loc); sb_printf (&loc, "\"o\":[");
  for (zz = 0; zz < tr->quadrants.elem_count; ++zz) put_quad (&loc, t, p4est_quadrant_array_index (&tr->quadrants, zz));
  sb_printf (&loc, "],\"ov\":[");
  for (zz = 0; zz < tr->quadrants.elem_count; ++zz) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, zz);
    sb_sep (&loc); sb_printf (&loc, "%d", payload_get (f, q));
  }
  sb_printf (&loc, "],\"pl\":[");
  for (i = 0; i <= P4EST_QMAXLEVEL; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", (int) tr->quadrants_per_level[i]); }
  sb_printf (&loc, "]"); locint ("ml", tr->maxlevel);
  for (zz = 0; zz < tr->quadrants.elem_count; ++zz) p4est_quadrant_free_data (f, p4est_quadrant_array_index (&tr->quadrants, zz));
  sc_array_reset (&tr->quadrants);
}
static void own_tree (p4est_tree_t *tr)
{
  int i;
  memset (tr, 0, sizeof *tr);
  sc_array_init (&tr->quadrants, sizeof (p4est_quadrant_t));
  P4EST_QUADRANT_INIT (&tr->first_desc); P4EST_QUADRANT_INIT (&tr->last_desc);
  for (i = P4EST_QMAXLEVEL + 1; i <= P4EST_MAXLEVEL; ++i) tr->quadrants_per_level[i] = -1;
}
/* descend n levels: to the first, to the last, or to random children */
static void descend (p4est_quadrant_t *q, int n)
{
  int how = (int) (rnd () % 4);
  p4est_quadrant_t c;
  for (; n > 0 && q->level < P4EST_QMAXLEVEL; --n) {
    p4est_quadrant_child (q, &c, how == 0 ? 0 : how == 1 ? P4EST_CHILDREN - 1 : (int) (rnd () % P4EST_CHILDREN));
    *q = c;
  }
}
static int depth (void) { int h = (int) (rnd () % 6); return h < 4 ? h : h == 4 ? (int) (rnd () % 9) : 29; }
static int qcmp (const void *a, const void *b) { return p4est_quadrant_compare (a, b); }

int op_build (const char *k)
{
  if (!strcmp (k, "region")) {  /* region s fl: between two random quadrants */
    int s = toki (), fl = toki (), i1, i2, a, b;
    p4est_t *f = drv_forest (s);
    p4est_topidx_t t;
    p4est_quadrant_t r, q1, q2;
    p4est_tree_t tr;
    rnd_seed (opseed + 77 * opno);
    t = (p4est_topidx_t) (rnd () % (uint64_t) f->connectivity->num_trees);
    P4EST_QUADRANT_INIT (&r); r.x = r.y = 0; r.level = 0;
#ifdef P4_TO_P8
    r.z = 0;
#endif
    descend (&r, rnd () % 3 ? (int) (rnd () % 5) : (int) (rnd () % P4EST_QMAXLEVEL));
    a = (int) (rnd () % (P4EST_CHILDREN - 1)); b = a + 1 + (int) (rnd () % (P4EST_CHILDREN - 1 - a));
    p4est_quadrant_child (&r, &q1, a); p4est_quadrant_child (&r, &q2, b);
    descend (&q1, depth ()); descend (&q2, depth ());
    i1 = (int) (rnd () % 2); i2 = (int) (rnd () % 2);
    own_tree (&tr);
    p4est_complete_region (f, &q1, i1, &q2, i2, &tr, t, (fl & 1) ? drv_init_fn : NULL);
    preint ("s", s); preint ("fl", fl); preint ("dsz", (long) f->data_size);
    sb_sep (&loc); sb_printf (&loc, "\"ends\":["); put_quad (&loc, t, &q1); put_quad (&loc, t, &q2); sb_printf (&loc, "]");
    locint ("i1", i1); locint ("i2", i2);
    put_tree (f, t, &tr);
    put_cb (); emit ("region");
    return 1;
  }
  if (!strcmp (k, "linear")) {  /* linear s n: remove overlaps from a sorted list */
    int s = toki (), n = toki (), i, j;
    p4est_t *f = drv_forest (s);
    p4est_topidx_t t;
    p4est_quadrant_t *q, *w;
    p4est_tree_t tr;
    rnd_seed (opseed + 77 * opno);
    n = n ? 1 + (int) (rnd () % (uint64_t) n) : 0;
    t = (p4est_topidx_t) (rnd () % (uint64_t) f->connectivity->num_trees);
    own_tree (&tr);
    for (i = 0; i < n; ++i) {
      q = (p4est_quadrant_t *) sc_array_push (&tr.quadrants);
      P4EST_QUADRANT_INIT (q); q->x = q->y = 0; q->level = 0;
#ifdef P4_TO_P8
      q->z = 0;
#endif
      if (i && rnd () % 2) {    /* related to an earlier one */
        *q = *p4est_quadrant_array_index (&tr.quadrants, rnd () % (uint64_t) i);
        if (rnd () % 2) for (j = (int) (rnd () % 3); j > 0 && q->level > 0; --j) p4est_quadrant_parent (q, q);
        else descend (q, (int) (rnd () % 3));
      }
      else descend (q, (int) (rnd () % 6));
    }
    sc_array_sort (&tr.quadrants, qcmp);
    sb_sep (&loc); sb_printf (&loc, "\"in\":[");
    for (i = 0; i < n; ++i) {
      q = p4est_quadrant_array_index (&tr.quadrants, i);
      p4est_quadrant_init_data (f, t, q, NULL);
      payload_set (f, q, 3 + i % 100);
      ++tr.quadrants_per_level[q->level];
      tr.maxlevel = SC_MAX (tr.maxlevel, q->level);
      put_quad (&loc, t, q);
    }
    sb_printf (&loc, "],\"iv\":[");
    for (i = 0; i < n; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", payload_get (f, p4est_quadrant_array_index (&tr.quadrants, i))); }
    sb_printf (&loc, "]");
    (void) w;
    locint ("ret", (long) p4est_linearize_tree (f, &tr));
    preint ("s", s);
    put_tree (f, t, &tr);
    emit ("linear");
    return 1;
  }
  if (!strcmp (k, "build")) {
    int s = toki (), d = toki (), dsz = toki (), fl = toki (), mode = toki (), via = toki ();
    pred_t p;
    p4est_t *f = drv_forest (s), *g;
    bctx_t c;
    sbuf ad = { NULL, 0, 0 };
    p4est_topidx_t t;
    size_t zz;
    pred_parse (&p);
    memset (&c, 0, sizeof c);
    rnd_seed (opseed);
    c.b = p4est_build_new (f, (size_t) dsz, (fl & 1) ? drv_init_fn : NULL, &mark);
    c.p = &p; c.mode = mode; c.ad = &ad; c.prev.level = -1; c.pt = -1;
    if (fl & 2) p4est_build_init_add (c.b, (fl & 4) ? NULL : add_init);
    sb_printf (&ad, "[");
    if (via) { bc = &c; p4est_search_local (f, 0, bld_search, NULL, NULL); }
    else
      for (t = f->first_local_tree; t <= f->last_local_tree; ++t) {
        p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
        for (zz = 0; zz < tr->quadrants.elem_count; ++zz) try_add (&c, tr, t, p4est_quadrant_array_index (&tr->quadrants, zz));
      }
    sb_printf (&ad, "]");
    g = p4est_build_complete (c.b);
    pred_free (&p);
    preint ("s", s); preint ("d", d); preint ("dsz", dsz); preint ("fl", fl); preint ("mode", mode);
    sb_sep (&loc); sb_printf (&loc, "\"ad\":%s", ad.s); free (ad.s);
    locint ("up", g->user_pointer == &mark && g->connectivity == f->connectivity);
    if (d != s && F[d].f) p4est_destroy (F[d].f);
    if (d == s) p4est_destroy (f);
    F[d].f = g; F[d].cslot = F[s].cslot;
    put_state (g); put_cb (); emit ("build");
    return 1;
  }
  if (!strcmp (k, "points")) {
    int s = toki (), c = toki (), ml = toki (), mp = toki (), n = toki (), kind = toki (), dsz = toki (), fl = toki (), i, e;
    p4est_quadrant_t *a;
    p4est_t *g;
    rnd_seed (opseed);
    if (kind & 4) n = (rank % 2 == (int) ((opseed >> 3) & 1)) ? n : 0;        /* some have none */
    else if (kind & 8) n = n ? (int) (rnd () % (uint64_t) (n + 1)) : 0;
    a = (p4est_quadrant_t *) calloc (n + 1, sizeof (*a));
    for (i = 0; i < n; ++i) {
      long x[3]; uint64_t h;
      P4EST_QUADRANT_INIT (&a[i]);
      h = rnd ();
      a[i].p.which_tree = (p4est_topidx_t) (h % (uint64_t) C[c]->num_trees);
      for (e = 0; e < 3; ++e) {
        if ((kind & 3) == 0) x[e] = (long) (rnd () % (P4EST_ROOT_LEN + 1L));
        else if ((kind & 3) == 1) x[e] = (long) ((rnd () % 5) * (P4EST_ROOT_LEN / 4));    /* lattice points, duplicates */
        else if ((kind & 3) == 2) { x[e] = 5 + (long) (rnd () % 3) + (P4EST_ROOT_LEN / 3); a[i].p.which_tree = C[c]->num_trees / 2; }  /* cluster */
        else x[e] = (long) (P4EST_ROOT_LEN / 2 + (long) (rnd () % 9) - 4);
        if (x[e] >= P4EST_ROOT_LEN) x[e] = P4EST_ROOT_LEN - 1;
      }
      a[i].x = (p4est_qcoord_t) x[0]; a[i].y = (p4est_qcoord_t) x[1];
#ifdef P4_TO_P8
      a[i].z = (p4est_qcoord_t) x[2];
#endif
      a[i].level = P4EST_MAXLEVEL;
    }
    sb_sep (&loc); sb_printf (&loc, "\"in\":[");
    for (i = 0; i < n; ++i) put_quad (&loc, a[i].p.which_tree, &a[i]);
    sb_printf (&loc, "]");
    g = p4est_new_points (comm, C[c], ml, a, n, mp, (size_t) dsz, (fl & 1) ? drv_init_fn : NULL, &mark);
    sb_sep (&loc); sb_printf (&loc, "\"out\":[");
    for (i = 0; i < n; ++i) put_quad (&loc, a[i].p.which_tree, &a[i]);
    sb_printf (&loc, "]");
    free (a);
    preint ("s", s); preint ("cs", c); preint ("ml", ml); preint ("mp", mp); preint ("dsz", dsz); preint ("fl", fl);
    locint ("up", g->user_pointer == &mark && g->connectivity == C[c]);
    locint ("val", p4est_is_valid (g));
    if (F[s].f) p4est_destroy (F[s].f);
    F[s].f = g; F[s].cslot = c;
    put_state (g); put_cb (); emit ("points");
    return 1;
  }
  if (!strcmp (k, "transfer")) {
    /* transfer s kind item part seed: from the partition of s to another one */
    int s = toki (), kind = toki (), item = toki (), part = toki (), i, var = kind >= 2, pass; long seed = tokl ();
    p4est_t *f = drv_forest (s);
    p4est_gloidx_t N = f->global_num_quadrants, *src = f->global_first_quadrant, *dst = (p4est_gloidx_t *) malloc (sizeof (*dst) * (nproc + 1));
    int nn[2], *sz[2], tot[2], *bytes; unsigned char *buf[2], *buf2; long g, j;
    p4est_transfer_context_t *tc, *tc2;
    for (i = 0; i <= nproc; ++i) {
      dst[i] = part == 0 ? src[i] : part == 1 ? p4est_partition_cut_gloidx (N, i, nproc) : part == 2 ? (i == nproc ? N : 0) : i == 0 ? 0 : N;
      if (part == 4 && i > 0 && i < nproc) { p4est_gloidx_t x = (p4est_gloidx_t) (hash64 (seed + i) % (uint64_t) (N + 1)); dst[i] = SC_MAX (x, dst[i - 1]); }
      if (part == 4 && i == nproc) dst[i] = N;
      if (part == 4 && i == 0) dst[i] = 0;
    }
    nn[0] = (int) (src[rank + 1] - src[rank]); nn[1] = (int) (dst[rank + 1] - dst[rank]);
    for (pass = 0; pass < 2; ++pass) {
      sz[pass] = (int *) calloc (nn[pass] + 1, sizeof (int));
      tot[pass] = 0;
      for (i = 0; i < nn[pass]; ++i) {
        g = (long) ((pass ? dst : src)[rank]) + i;
        sz[pass][i] = var ? nbytes_of (g, seed) : item;
        tot[pass] += sz[pass][i] * (kind >= 4 ? item : 1);
      }
      buf[pass] = (unsigned char *) malloc (tot[pass] + 1);
      memset (buf[pass], 0xfd, tot[pass] + 1);
    }
    bytes = NULL; (void) bytes;
    { unsigned char *b = buf[0];
      for (i = 0; i < nn[0]; ++i) for (j = 0, g = (long) src[rank] + i; j < sz[0][i] * (kind >= 4 ? item : 1); ++j) *b++ = val_of (g, j, seed); }
    buf2 = (unsigned char *) malloc (sizeof (int) * (nn[1] + 1));
    memset (buf2, 0xff, sizeof (int) * (nn[1] + 1));
    switch (kind) {
    case 0: p4est_transfer_fixed (dst, src, comm, 7, buf[1], buf[0], item); break;
    case 1:
      tc = p4est_transfer_fixed_begin (dst, src, comm, 7, buf[1], buf[0], item);
      tc2 = p4est_transfer_fixed_begin (dst, src, comm, 8, buf2, sz[0], sizeof (int));
      if (seed & 1) { p4est_transfer_fixed_end (tc2); p4est_transfer_end (tc); }
      else { p4est_transfer_fixed_end (tc); p4est_transfer_fixed_end (tc2); }
      break;
    case 2: p4est_transfer_fixed (dst, src, comm, 8, buf2, sz[0], sizeof (int));
      p4est_transfer_custom (dst, src, comm, 7, buf[1], (int *) buf2, buf[0], sz[0]); break;
    case 3: p4est_transfer_fixed (dst, src, comm, 8, buf2, sz[0], sizeof (int));
      tc = p4est_transfer_custom_begin (dst, src, comm, 7, buf[1], (int *) buf2, buf[0], sz[0]); p4est_transfer_custom_end (tc); break;
    case 4: p4est_transfer_fixed (dst, src, comm, 8, buf2, sz[0], sizeof (int));
      p4est_transfer_items (dst, src, comm, 7, buf[1], (int *) buf2, buf[0], sz[0], item); break;
    default: p4est_transfer_fixed (dst, src, comm, 8, buf2, sz[0], sizeof (int));
      tc = p4est_transfer_items_begin (dst, src, comm, 7, buf[1], (int *) buf2, buf[0], sz[0], item);
      if (seed & 1) p4est_transfer_items_end (tc); else p4est_transfer_end (tc);
    }
    preint ("s", s); preint ("kind", kind); preint ("item", item);
    if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"dst\":["); for (i = 0; i <= nproc; ++i) { sb_sep (&pre); sb_printf (&pre, "%lld", (long long) dst[i]); } sb_printf (&pre, "]"); }
    put_ilist ("ss", sz[0], nn[0]);
    put_ilist ("ds", kind >= 1 ? (int *) buf2 : sz[1], nn[1]);
    for (pass = 0; pass < 2; ++pass) {
      bytes = (int *) malloc (sizeof (int) * (tot[pass] + 1));
      for (i = 0; i < tot[pass]; ++i) bytes[i] = buf[pass][i];
      put_ilist (pass ? "dd" : "sd", bytes, tot[pass]);
      free (bytes);
    }
    locint ("guard", buf[1][tot[1]] == 0xfd);
    emit ("transfer");
    for (pass = 0; pass < 2; ++pass) { free (sz[pass]); free (buf[pass]); }
    free (buf2); free (dst);
    return 1;
  }
  if (!strcmp (k, "reduce")) {
    /* reduce s mode mask: a copy loses its empty processes; mode 0 plain,
       1 keep the ranks of mask at the end, 2 at the beginning */
    int s = toki (), mode = toki (), mask = toki (), i, ret, *ranks = NULL, n = 0, lst[64];
    p4est_t *f = drv_forest (s), *g = p4est_copy_ext (f, 1, 1);
    MPI_Group all, add = MPI_GROUP_NULL;
    int round;
    g->user_pointer = &mark;
    if (mode == 0) ret = p4est_comm_parallel_env_reduce (&g);
    else {
      for (i = 0; i < nproc; ++i) if ((mask >> i) & 1) lst[n++] = (mask >> 10) & 1 ? nproc - 1 - i : i;
      if ((mask >> 10) & 1) { n = 0; for (i = nproc - 1; i >= 0; --i) if ((mask >> i) & 1) lst[n++] = i; }
      PMPI_Comm_group (comm, &all);
      PMPI_Group_incl (all, n, lst, &add);
      PMPI_Group_free (&all);
      ret = p4est_comm_parallel_env_reduce_ext (&g, add, mode == 2, &ranks);
      if (add != MPI_GROUP_EMPTY) PMPI_Group_free (&add);
    }
    preint ("s", s); preint ("mode", mode); preint ("n", n);
    if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"add\":["); for (i = 0; i < n; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", lst[i]); } sb_printf (&pre, "]"); }
    locint ("ret", ret); locint ("has", g != NULL);
    locint ("ownrank", rank);
    for (round = 0; round < 2; ++round) {
      const char *sf = round ? "2" : "";
      char nm[16];
      snprintf (nm, 16, "size%s", sf); locint (nm, g ? g->mpisize : 0);
      snprintf (nm, 16, "rank%s", sf); locint (nm, g ? g->mpirank : -1);
      snprintf (nm, 16, "val%s", sf); locint (nm, g ? p4est_is_valid (g) : 1);
      snprintf (nm, 16, "rk%s", sf);
      if (round == 0) put_ilist (nm, ranks, g && ranks ? g->mpisize : 0);
      sb_sep (&loc); sb_printf (&loc, "\"gfq%s\":[", sf);
      if (g) for (i = 0; i <= g->mpisize; ++i) { sb_sep (&loc); sb_printf (&loc, "%lld", (long long) g->global_first_quadrant[i]); }
      sb_printf (&loc, "],\"gfp%s\":[", sf);
      if (g) for (i = 0; i <= g->mpisize; ++i) put_quad (&loc, g->global_first_position[i].p.which_tree, &g->global_first_position[i]);
      sb_printf (&loc, "],\"q%s\":[", sf);
      if (g) for (i = 0; i < g->local_num_quadrants; ++i) { p4est_topidx_t t; p4est_quadrant_t *q = drv_local (g, i, &t); put_quad (&loc, t, q); }
      sb_printf (&loc, "],\"v%s\":[", sf);
      if (g && g->data_size > 0) for (i = 0; i < g->local_num_quadrants; ++i) { p4est_topidx_t t; p4est_quadrant_t *q = drv_local (g, i, &t); sb_sep (&loc); sb_printf (&loc, "%d", payload_get (g, q)); }
      sb_printf (&loc, "]");
      snprintf (nm, 16, "misc%s", sf);
      { int m[6] = { 0, 0, 0, 0, 0, 0 }, sz2 = 0, rk2 = -1;
        if (g) { PMPI_Comm_size (g->mpicomm, &sz2); PMPI_Comm_rank (g->mpicomm, &rk2);
          m[0] = sz2 == g->mpisize && rk2 == g->mpirank; m[1] = (int) g->local_num_quadrants; m[2] = (int) g->global_num_quadrants; m[3] = g->user_pointer == &mark; m[4] = (int) g->data_size; m[5] = (int) g->first_local_tree; }
        put_ilist (nm, m, 6); }
      if (round == 0 && g) p4est_partition (g, 0, NULL);
    }
    if (ranks) sc_free (p4est_package_id, ranks);
    emit ("reduce");
    if (g) p4est_destroy (g);
    return 1;
  }
  return 0;
}
