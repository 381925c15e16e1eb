/* forests of columns (p6est), 2D driver only */
#include "drv.h"
#ifdef P4_TO_P8
int op_p6est (const char *k) { return 0; }
void p6est_cleanup (void) { }
#else
#include <p6est.h>
#include <p6est_extended.h>
#include <p6est_ghost.h>
#include <p6est_lnodes.h>
#include <p6est_communication.h>
int p6est_connectivity_save (const char *filename, p6est_connectivity_t *conn);
p6est_connectivity_t *p6est_connectivity_load (const char *filename, size_t *bytes);

typedef struct { p6est_t *f; p6est_connectivity_t *c; int ownc; int cslot; char mark; } hslot_t;
static hslot_t H[NSLOT];
static int fl6, upbad;
static pred_t cpred;
static struct { int kind; uint64_t seed; int pm, L, budget; p4est_qcoord_t z; } lpred;

static p6est_t *HS (int s)
{ if (s < 0 || s >= NSLOT || !H[s].f) { fprintf (stderr, "DRV: column slot %d empty\n", s); MPI_Abort (MPI_COMM_WORLD, 9); } return H[s].f; }
p6est_t *drv_p6 (int s) { return HS (s); }
static void hdrop (int s)
{
  int i, shared = 0;
  p6est_connectivity_t *c = H[s].c;
  if (!H[s].f) return;
  p6est_destroy (H[s].f);
  for (i = 0; i < NSLOT; ++i) if (i != s && H[i].f && H[i].c == c) shared = 1;
  if (!shared) p6est_connectivity_destroy (c);
  memset (&H[s], 0, sizeof (H[s]));
}
static void hgdrop (int i);
void p6est_cleanup (void) { int i; for (i = 0; i < NSLOT; ++i) { hgdrop (i); hdrop (i); } }
static long cap6 (void) { const char *e = getenv ("DRV_CAP"); return e ? atol (e) : 200; }

static int get6 (p6est_t *f, p2est_quadrant_t *l)
{ return f->data_size > 0 ? bytes_get (l->p.user_data, f->data_size) : 0; }
static int trim6 (p6est_t *f, int id) { return f->data_size > 0 && f->data_size < 4 ? (id & 0x7f) : f->data_size ? id : 0; }
static void put_cell (sbuf *b, p4est_topidx_t t, p4est_quadrant_t *q, p2est_quadrant_t *l)
{
  sb_sep (b);
  sb_printf (b, "[%d,%d,%d,%d,%d,%d]", (int) t, (int) q->level, (int) q->x, (int) q->y, (int) l->z, (int) l->level);
}
static void *expected_up;
static void up (p6est_t *f) { if (f->user_pointer != expected_up) upbad = 1; }
static void init6 (p6est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p2est_quadrant_t *l)
{
  int id = new_id ();
  up (f);
  if (f->data_size > 0) bytes_fill (l->p.user_data, f->data_size, id);
  sb_sep (&cb); sb_printf (&cb, "[\"i\",");
  put_cell (&cb, t, q, l);
  sb_printf (&cb, ",%d]", trim6 (f, id));
}
static void repl6 (p6est_t *f, p4est_topidx_t t, int noc, int nol, p4est_quadrant_t *oc[], p2est_quadrant_t *ol[],
                   int nic, int nil, p4est_quadrant_t *ic[], p2est_quadrant_t *il[])
{
  int i;
  up (f);
  sb_sep (&cb); sb_printf (&cb, "[\"r\",[");
  for (i = 0; i < nol; ++i) {
    sb_sep (&cb); sb_printf (&cb, "[");
    put_cell (&cb, t, oc[noc == 1 ? 0 : i], ol[i]); sb_printf (&cb, ",%d]", get6 (f, ol[i]));
  }
  sb_printf (&cb, "],[");
  for (i = 0; i < nil; ++i) {
    int b = get6 (f, il[i]), id = new_id ();
    if (f->data_size > 0) bytes_fill (il[i]->p.user_data, f->data_size, id);
    sb_sep (&cb); sb_printf (&cb, "[");
    put_cell (&cb, t, ic[nic == 1 ? 0 : i], il[i]); sb_printf (&cb, ",%d,%d]", b, trim6 (f, id));
  }
  sb_printf (&cb, "]]");
}
static int refcol6 (p6est_t *f, p4est_topidx_t t, p4est_quadrant_t *q)
{
  int a = pred_eval (&cpred, t, q);
  up (f);
  sb_sep (&cb); sb_printf (&cb, "[\"a\",%d,", a); put_quad (&cb, t, q); sb_printf (&cb, ",0]");
  return a;
}
static int coacol6 (p6est_t *f, p4est_topidx_t t, p4est_quadrant_t *q[])
{
  int a, i;
  p4est_quadrant_t p;
  p4est_qcoord_t h;
  up (f);
  if (q[1] == NULL) {
    sb_sep (&cb); sb_printf (&cb, "[\"o\","); put_quad (&cb, t, q[0]); sb_printf (&cb, ",0]");
    return (int) (rnd () % 2);
  }
  p = *q[0]; h = P4EST_QUADRANT_LEN (p.level);
  p.level--; p.x &= ~h; p.y &= ~h;
  a = pred_eval (&cpred, t, &p);
  sb_sep (&cb); sb_printf (&cb, "[\"c\",%d,[", a);
  for (i = 0; i < P4EST_CHILDREN; ++i) put_quad (&cb, t, q[i]);
  sb_printf (&cb, "],[0,0,0,0]]");
  return a;
}
static int leval (p4est_topidx_t t, p4est_quadrant_t *q, p4est_qcoord_t z, int level)
{
  int r = 0;
  if (level >= lpred.L) return 0;
  switch (lpred.kind) {
  case 1: r = 1; break;
  case 2: r = (int) (hash64 (hashq (lpred.seed, t, q) + 31 * (uint64_t) z + level) % 1000) < lpred.pm; break;
  case 3: r = lpred.z >= z && lpred.z - z < P4EST_QUADRANT_LEN (level); break;
  case 4: r = (int) (hash64 (lpred.seed + 31 * (uint64_t) z + level) % 1000) < lpred.pm; break;
  default: ;
  }
  if (r && lpred.budget) { if (lpred.budget == 1) r = 0; else --lpred.budget; }
  return r;
}
static void lparse (void)
{
  const char *k = tok ();
  memset (&lpred, 0, sizeof (lpred));
  lpred.L = 99;
  if (!strcmp (k, "all")) { lpred.kind = 1; lpred.L = toki (); }
  else if (!strcmp (k, "h")) { lpred.kind = 2; lpred.seed = tokl (); lpred.pm = toki (); lpred.L = toki (); }
  else if (!strcmp (k, "z")) { lpred.kind = 3; lpred.L = toki (); lpred.z = (p4est_qcoord_t) tokl (); }
  else if (!strcmp (k, "hz")) { lpred.kind = 4; lpred.seed = tokl (); lpred.pm = toki (); lpred.L = toki (); }
}
static int reflay6 (p6est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p2est_quadrant_t *l)
{
  int a = leval (t, q, l->z, l->level);
  up (f);
  sb_sep (&cb); sb_printf (&cb, "[\"a\",%d,", a); put_cell (&cb, t, q, l); sb_printf (&cb, ",%d]", get6 (f, l));
  return a;
}
static int coalay6 (p6est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p2est_quadrant_t *l[])
{
  int a;
  up (f);
  if (l[1] == NULL) {
    sb_sep (&cb); sb_printf (&cb, "[\"o\","); put_cell (&cb, t, q, l[0]); sb_printf (&cb, ",%d]", get6 (f, l[0]));
    return (int) (rnd () % 2);
  }
  a = leval (t, q, l[0]->z & ~P4EST_QUADRANT_LEN (l[0]->level), l[0]->level - 1);
  sb_sep (&cb); sb_printf (&cb, "[\"C\",%d,[", a);
  put_cell (&cb, t, q, l[0]); put_cell (&cb, t, q, l[1]);
  sb_printf (&cb, "],[%d,%d]]", get6 (f, l[0]), get6 (f, l[1]));
  return a;
}
static int wkind6, wmax6;
static uint64_t wseed6;
static int weight6 (p6est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p2est_quadrant_t *l)
{
  uint64_t h = hash64 (hashq (wseed6, t, q) + 31 * (uint64_t) l->z + l->level);
  int w = wkind6 == 0 ? 0 : wkind6 == 1 ? 1 : wkind6 == 2 ? (int) (h % (wmax6 + 1)) : h % 10 == 0 ? wmax6 : 0;
  up (f);
  sb_sep (&cb); sb_printf (&cb, "[\"w\",%d,", w); put_cell (&cb, t, q, l); sb_printf (&cb, ",%d]", get6 (f, l));
  return w;
}
static void put_state6 (p6est_t *f)
{
  p4est_topidx_t t;
  size_t zz, zy, first, last;
  int i, same;
  size_t gb = sizeof (p4est_gloidx_t) * (nproc + 1);
  p4est_gloidx_t *g0 = (p4est_gloidx_t *) malloc (gb);
  put_state (f->columns);
  if (rank == 0) {
    sb_sep (&pre); sb_printf (&pre, "\"root\":%d,\"gfl\":[", (int) f->root_len);
    for (i = 0; i <= nproc; ++i) { sb_sep (&pre); sb_printf (&pre, "%lld", (long long) f->global_first_layer[i]); }
    sb_printf (&pre, "]");
    memcpy (g0, f->global_first_layer, gb);
  }
  PMPI_Bcast (g0, (int) gb, MPI_BYTE, 0, comm);
  same = !memcmp (g0, f->global_first_layer, gb);
  free (g0);
  locint ("sameg", same); locint ("nl", (long) f->layers->elem_count); locint ("dsz6", (long) f->data_size);
  locint ("up", !upbad && f->user_pointer == expected_up); locint ("cup", f->columns->user_pointer == f);
  sb_sep (&loc); sb_printf (&loc, "\"rg\":[");
  for (t = 0; t < f->columns->connectivity->num_trees; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (f->columns->trees, t);
    for (zz = 0; zz < tr->quadrants.elem_count; ++zz) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, zz);
      P6EST_COLUMN_GET_RANGE (q, &first, &last);
      sb_sep (&loc); sb_printf (&loc, "%ld", (long) first);
    }
  }
  sb_printf (&loc, "],\"ly\":[");
  for (t = 0; t < f->columns->connectivity->num_trees; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (f->columns->trees, t);
    for (zz = 0; zz < tr->quadrants.elem_count; ++zz) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, zz);
      P6EST_COLUMN_GET_RANGE (q, &first, &last);
      sb_sep (&loc); sb_printf (&loc, "[");
      for (zy = first; zy < last && zy < f->layers->elem_count; ++zy) {
        p2est_quadrant_t *l = p2est_quadrant_array_index (f->layers, zy);
        sb_sep (&loc); sb_printf (&loc, "[%d,%d,%d]", (int) l->z, (int) l->level, get6 (f, l));
      }
      sb_printf (&loc, "]");
    }
  }
  sb_printf (&loc, "]");
}
static p6est_init_t initfn (int fl) { return (fl & 1) ? init6 : NULL; }
static p6est_replace_t replfn (int fl) { return (fl & 2) ? repl6 : NULL; }
static void begin6 (p6est_t *f) { upbad = 0; expected_up = f ? f->user_pointer : NULL; }
static void end6 (p6est_t *f, const char *k)
{ put_state6 (f); put_cb (); emit (k); }
/* prescribed layer counts with boundaries on columns (or not) */
static void counts6 (p6est_t *f, int mode, int sd, int aligned, p4est_locidx_t *num)
{
  long N = (long) f->global_first_layer[nproc], nc = (long) f->columns->global_num_quadrants, at = 0;
  int i;
  int *loccnt = (int *) calloc (nc + 1, sizeof (int)), *cnt = (int *) calloc (nc + 1, sizeof (int));
  long *start = (long *) calloc (nc + 1, sizeof (long));
  p4est_topidx_t t;
  size_t zz, first, last;
  long g = (long) f->columns->global_first_quadrant[rank];
  for (t = 0; t < f->columns->connectivity->num_trees; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (f->columns->trees, t);
    for (zz = 0; zz < tr->quadrants.elem_count; ++zz) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, zz);
      P6EST_COLUMN_GET_RANGE (q, &first, &last);
      loccnt[g++] = (int) (last - first);
    }
  }
  PMPI_Allreduce (loccnt, cnt, (int) nc, MPI_INT, MPI_SUM, comm);
  for (i = 0; i < nc; ++i) start[i + 1] = start[i] + cnt[i];
  for (i = 0; i < nproc; ++i) {
    uint64_t h = hash64 (sd * 1009ULL + i);
    long nx;
    if (mode == 0) nx = h % (N + 1);
    else if (mode == 1) nx = (h % 3 == 0) ? 0 : h % 3 == 1 ? N : (long) (h / 3 % (N + 1));
    else if (mode == 2) nx = (i >= sd % nproc) ? N : 0;
    else nx = N * (i + 1) / nproc;
    if (i == nproc - 1) nx = N;
    if (nx < at) nx = at;
    if (aligned) { int j; for (j = 0; start[j] < nx; ++j); nx = start[j]; }
    num[i] = (p4est_locidx_t) (nx - at);
    at = nx;
  }
  free (loccnt); free (cnt); free (start);
}

/* ghost layers and numberings */
static struct { p6est_ghost_t *g; int s; } HG[NSLOT];
static void hgdrop (int i) { if (HG[i].g) p6est_ghost_destroy (HG[i].g); HG[i].g = NULL; }
static void put_layers (const char *name, sc_array_t *a)
{
  size_t zz;
  sb_sep (&loc); sb_printf (&loc, "\"%s\":[", name);
  for (zz = 0; zz < a->elem_count; ++zz) {
    p2est_quadrant_t *l = p2est_quadrant_array_index (a, zz);
    sb_sep (&loc); sb_printf (&loc, "[%d,%d,%d,%d]", (int) l->p.piggy3.which_tree, (int) l->z, (int) l->level, (int) l->p.piggy3.local_num);
  }
  sb_printf (&loc, "]");
}
static void put_ghost6 (p6est_t *f, p6est_ghost_t *g)
{
  int fl = g->mirror_proc_fronts != g->mirror_proc_mirrors;
  put_ghost (f->columns, g->column_ghost);
  put_layers ("lg", &g->ghosts); put_layers ("lm", &g->mirrors);
  loclist ("clo", (p4est_locidx_t *) g->column_layer_offsets->array, g->column_layer_offsets->elem_count);
  loclist ("lto", g->tree_offsets, g->num_trees + 1);
  loclist ("lpo", g->proc_offsets, g->mpisize + 1);
  loclist ("lmto", g->mirror_tree_offsets, g->num_trees + 1);
  loclist ("lmpo", g->mirror_proc_offsets, g->mpisize + 1);
  loclist ("lmpm", g->mirror_proc_mirrors, g->mirror_proc_offsets[g->mpisize]);
  locint ("lhf", fl);
  loclist ("lfro", g->mirror_proc_front_offsets, g->mpisize + 1);
  loclist ("lfrm", g->mirror_proc_fronts, g->mirror_proc_front_offsets[g->mpisize]);
  locint ("lbt", (int) g->btype == (int) g->column_ghost->btype && g->mpisize == f->mpisize && g->num_trees == f->columns->connectivity->num_trees);
}
static void put_lnodes6 (p6est_lnodes_t *ln, int P)
{
  p4est_locidx_t i;
  size_t z;
  int j;
  locint ("n", ln->num_local_nodes); locint ("oc", ln->owned_count); locint ("off", (long) ln->global_offset);
  locint ("deg", ln->degree); locint ("vn", ln->vnodes); locint ("ne", ln->num_local_elements);
  sb_sep (&loc); sb_printf (&loc, "\"nl\":[");
  for (i = 0; i < ln->num_local_nodes - ln->owned_count; ++i) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) ln->nonlocal_nodes[i]); }
  sb_printf (&loc, "]");
  loclist ("goc", ln->global_owned_count, P);
  loclist ("en", ln->element_nodes, ln->vnodes * ln->num_local_elements);
  sb_sep (&loc); sb_printf (&loc, "\"fc\":[");
  for (i = 0; i < ln->num_local_elements; ++i) {
    int hf[6], he[12];
    sb_sep (&loc); sb_printf (&loc, "[");
    if (p6est_lnodes_decode (ln->face_code[i], hf, he)) {
      for (j = 0; j < 6; ++j) { sb_sep (&loc); sb_printf (&loc, "%d", hf[j]); }
      for (j = 0; j < 12; ++j) { sb_sep (&loc); sb_printf (&loc, "%d", he[j]); }
    }
    sb_printf (&loc, "]");
  }
  sb_printf (&loc, "],\"sh\":[");
  for (z = 0; z < ln->sharers->elem_count; ++z) {
    p6est_lnodes_rank_t *lr = p6est_lnodes_rank_array_index (ln->sharers, z);
    sb_sep (&loc); sb_printf (&loc, "[%d,[", lr->rank);
    for (i = 0; i < (p4est_locidx_t) lr->shared_nodes.elem_count; ++i) {
      sb_sep (&loc); sb_printf (&loc, "%ld", (long) *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, i));
    }
    sb_printf (&loc, "],%ld,%ld,%ld,%ld]", (long) lr->shared_mine_offset, (long) lr->shared_mine_count, (long) lr->owned_offset, (long) lr->owned_count);
  }
  sb_printf (&loc, "]");
}

int op_p6est (const char *k)
{
  if (k[0] != 'h') return 0;
  if (!strcmp (k, "hghost")) {
    int s = toki (), g = toki (), kind = toki ();
    p6est_t *f = HS (s);
    hgdrop (g);
    HG[g].g = p6est_ghost_new (f, kind == 1 ? P4EST_CONNECT_FACE : P4EST_CONNECT_FULL); HG[g].s = s;
    preint ("s", s); preint ("g", g); preint ("kind", kind);
    put_ghost6 (f, HG[g].g);
    emit (k);
    return 1;
  }
  if (!strcmp (k, "hgexp")) {
    int g = toki ();
    p6est_t *f = HS (HG[g].s);
    p6est_ghost_expand (f, HG[g].g);
    preint ("s", HG[g].s); preint ("g", g);
    put_ghost6 (f, HG[g].g);
    emit (k);
    return 1;
  }
  if (!strcmp (k, "hgdrop")) { hgdrop (toki ()); return 1; }
  if (!strcmp (k, "hlnodes")) {   /* g < 0: without a ghost layer */
    int s = toki (), g = toki (), deg = toki (), i;
    p6est_t *f = HS (s);
    p6est_lnodes_t *ln;
    p6est_lnodes_buffer_t *b;
    p4est_gloidx_t *lab;
    sc_array_t *a;
    size_t z;
    if (f->global_first_layer[nproc] * (deg + 1) * (deg + 1) * (deg + 1) > 6000) return 1;
    ln = p6est_lnodes_new (f, g < 0 ? NULL : HG[g].g, deg);
    preint ("s", s); preint ("g", g); preint ("deg", deg);
    put_lnodes6 (ln, nproc);
    a = sc_array_new_size (sizeof (int), ln->num_local_nodes);
    for (i = 0; i < ln->num_local_nodes; ++i) *(int *) sc_array_index (a, i) = (rank + 1) * 100000 + i;
    p6est_lnodes_share_owned (a, ln);
    sb_sep (&loc); sb_printf (&loc, "\"so\":[");
    for (i = 0; i < ln->num_local_nodes; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", *(int *) sc_array_index (a, i)); }
    sb_printf (&loc, "],\"sa\":[");
    for (i = 0; i < ln->num_local_nodes; ++i) *(int *) sc_array_index (a, i) = (rank + 1) * 100000 + i;
    b = p6est_lnodes_share_all (a, ln);
    for (z = 0; z < ln->sharers->elem_count; ++z) {
      sc_array_t *rb = (sc_array_t *) sc_array_index (b->recv_buffers, z);
      sb_sep (&loc); sb_printf (&loc, "[");
      for (i = 0; i < (int) rb->elem_count; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", *(int *) sc_array_index (rb, i)); }
      sb_printf (&loc, "]");
    }
    sb_printf (&loc, "]");
    p6est_lnodes_buffer_destroy (b);
    sc_array_destroy (a);
    lab = p6est_lnodes_get_column_labels (f, ln);
    sb_sep (&loc); sb_printf (&loc, "\"lab\":[");
    for (i = 0; i < ln->owned_count; ++i) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) lab[i]); }
    sb_printf (&loc, "]");
    P4EST_FREE (lab);
    p6est_lnodes_destroy (ln);
    emit (k);
    return 1;
  }
  if (!strcmp (k, "hnew")) {
    int s = toki (), c = toki (), minq = toki (), minl = toki (), minz = toki (), zroot = toki (), fill = toki (), dsz = toki (), fl = toki ();
    double h[3] = { 0., 0., 1. };
    p6est_connectivity_t *cc;
    double *top = NULL;
    hdrop (s);
    if ((fl & 8) && C[c]->vertices != NULL) {
      int i;
      top = (double *) malloc (sizeof (double) * 3 * C[c]->num_vertices);
      for (i = 0; i < 3 * C[c]->num_vertices; ++i) top[i] = C[c]->vertices[i] + (i % 3 == 2) + i / 8.;
    }
    cc = p6est_connectivity_new (C[c], top, h);
    free (top);
    upbad = 0; expected_up = &H[s].mark;
    H[s].f = p6est_new_ext (comm, cc, minq, minl, minz, zroot, fill, dsz, initfn (fl), &H[s].mark);
    H[s].c = cc; H[s].cslot = c;
    preint ("s", s); preint ("cs", c); preint ("minq", minq); preint ("minl", minl); preint ("minz", minz); preint ("zroot", zroot);
    preint ("fill", fill); preint ("dsz", dsz); preint ("fl", fl);
    end6 (H[s].f, k);
    return 1;
  }
  if (!strcmp (k, "hfrom")) {   /* from the column forest in slot s2 */
    int s = toki (), s2 = toki (), minz = toki (), dsz = toki (), fl = toki ();
    double h[3] = { 0., 0., 1. };
    hdrop (s);
    upbad = 0; expected_up = &H[s].mark;
    H[s].f = p6est_new_from_p4est (drv_forest (s2), NULL, h, minz, dsz, initfn (fl), &H[s].mark);
    H[s].c = H[s].f->connectivity; H[s].cslot = F[s2].cslot;
    preint ("s", s); preint ("s2", s2); preint ("cs", H[s].cslot); preint ("minz", minz); preint ("dsz", dsz); preint ("fl", fl);
    end6 (H[s].f, k);
    return 1;
  }
  if (!strcmp (k, "hrefc")) {
    int s = toki (), rec = toki (), maxl = toki (), fl = toki (), budget = toki ();
    p6est_t *f = HS (s);
    pred_parse (&cpred); cpred.budget = budget ? budget + 1 : 0;
    if (f->global_first_layer[nproc] > cap6 ()) { pred_free (&cpred); return 1; }
    begin6 (f);
    if (maxl < 0 && !(fl & 2)) p6est_refine_columns (f, rec, refcol6, initfn (fl));
    else p6est_refine_columns_ext (f, rec, maxl, refcol6, initfn (fl), replfn (fl));
    pred_free (&cpred);
    preint ("s", s); preint ("rec", rec); preint ("maxl", maxl < 0 ? P4EST_QMAXLEVEL : maxl); preint ("fl", fl);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hrefl")) {
    int s = toki (), rec = toki (), maxl = toki (), fl = toki (), budget = toki ();
    p6est_t *f = HS (s);
    lparse (); lpred.budget = budget ? budget + 1 : 0;
    if (f->global_first_layer[nproc] > cap6 ()) return 1;
    begin6 (f);
    if (maxl < 0 && !(fl & 2)) p6est_refine_layers (f, rec, reflay6, initfn (fl));
    else p6est_refine_layers_ext (f, rec, maxl, reflay6, initfn (fl), replfn (fl));
    preint ("s", s); preint ("rec", rec); preint ("maxl", maxl < 0 ? P4EST_QMAXLEVEL : maxl); preint ("fl", fl);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hcoac")) {
    int s = toki (), rec = toki (), orph = toki (), fl = toki ();
    p6est_t *f = HS (s);
    pred_parse (&cpred);
    begin6 (f);
    if (!orph && !(fl & 2)) p6est_coarsen_columns (f, rec, coacol6, initfn (fl));
    else p6est_coarsen_columns_ext (f, rec, orph, coacol6, initfn (fl), replfn (fl));
    pred_free (&cpred);
    preint ("s", s); preint ("rec", rec); preint ("orph", orph); preint ("fl", fl);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hcoal")) {
    int s = toki (), rec = toki (), orph = toki (), fl = toki ();
    p6est_t *f = HS (s);
    lparse ();
    begin6 (f);
    if (!orph && !(fl & 2)) p6est_coarsen_layers (f, rec, coalay6, initfn (fl));
    else p6est_coarsen_layers_ext (f, rec, orph, coalay6, initfn (fl), replfn (fl));
    preint ("s", s); preint ("rec", rec); preint ("orph", orph); preint ("fl", fl);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hbal")) {    /* kind 1 face 2 edge 3 corner; maxd < mind: no bounds */
    int s = toki (), kind = toki (), maxd = toki (), mind = toki (), fl = toki ();
    p6est_t *f = HS (s);
    p8est_connect_type_t bt = kind == 1 ? P8EST_CONNECT_FACE : kind == 2 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_CORNER;
    if (maxd >= mind && f->global_first_layer[nproc] > cap6 () / 2) { maxd = 0; mind = 1; }
    begin6 (f);
    if (maxd == 0 && mind == 1 && !(fl & 2)) p6est_balance (f, bt, initfn (fl));
    else p6est_balance_ext (f, bt, maxd, mind, initfn (fl), replfn (fl));
    preint ("s", s); preint ("kind", kind); preint ("maxd", maxd); preint ("mind", mind); preint ("fl", fl);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hpart")) {
    int s = toki (), pfc = toki (), wk = toki ();
    p6est_t *f = HS (s);
    p4est_gloidx_t r;
    wkind6 = wk; wseed6 = 0; wmax6 = 1;
    if (wk >= 0) { wseed6 = toki (); wmax6 = toki (); }
    begin6 (f);
    if (pfc < 0) { pfc = 0; r = p6est_partition (f, wk < 0 ? NULL : weight6); }
    else r = p6est_partition_ext (f, pfc, wk < 0 ? NULL : weight6);
    preint ("s", s); preint ("pfc", pfc); preint ("wk", wk < 0 ? 0 : 1);
    locint ("ret", (long) r);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hgiven")) {
    int s = toki (), mode = toki (), sd = toki (), i;
    p6est_t *f = HS (s);
    p4est_gloidx_t r;
    p4est_locidx_t *num = (p4est_locidx_t *) calloc (nproc, sizeof (p4est_locidx_t));
    counts6 (f, mode, sd, 1, num);
    if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"num\":["); for (i = 0; i < nproc; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", (int) num[i]); } sb_printf (&pre, "]"); }
    begin6 (f);
    r = p6est_partition_given (f, num);
    free (num);
    preint ("s", s);
    locint ("ret", (long) r);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hcnt")) {    /* count corrections: 0 respect columns, 1 respect families */
    int s = toki (), what = toki (), mode = toki (), sd = toki (), i;
    p6est_t *f = HS (s);
    p4est_locidx_t *num = (p4est_locidx_t *) calloc (nproc, sizeof (p4est_locidx_t));
    counts6 (f, mode, sd, what == 1, num);
    if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"num\":["); for (i = 0; i < nproc; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", (int) num[i]); } sb_printf (&pre, "]"); }
    begin6 (f);
    if (what == 0) p6est_partition_correct (f, num);
    else p6est_partition_for_coarsening (f, num);
    preint ("s", s); preint ("what", what);
    loclist ("out", num, nproc);
    free (num);
    emit (k);
    return 1;
  }
  if (!strcmp (k, "hcopy")) {
    int s = toki (), d = toki (), cd = toki (), dup = toki ();
    p6est_t *f = HS (s), *g;
    hdrop (d);
    begin6 (f);
    if (dup < 0) { dup = 0; g = p6est_copy (f, cd); } else g = p6est_copy_ext (f, cd, dup);
    H[d].f = g; H[d].c = H[s].c; H[d].cslot = H[s].cslot;
    preint ("s", s); preint ("d", d); preint ("cd", cd);
    end6 (g, k);
    return 1;
  }
  if (!strcmp (k, "hreset")) {
    int s = toki (), dsz = toki (), fl = toki ();
    p6est_t *f = HS (s);
    upbad = 0; expected_up = &H[s].mark;
    p6est_reset_data (f, dsz, initfn (fl), &H[s].mark);
    preint ("s", s); preint ("dsz", dsz); preint ("fl", fl);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hdrop")) { hdrop (toki ()); return 1; }
  if (!strcmp (k, "hcheck")) {
    int s = toki ();
    p6est_t *f = HS (s);
    unsigned u = p6est_checksum (f);
    preint ("s", s);
    locint ("hi", u >> 16); locint ("lo", u & 0xffff);
    emit (k);
    return 1;
  }
  if (!strcmp (k, "hsave")) {
    int s = toki (), id = toki (), sd = toki (), sp = toki ();
    p6est_t *f = HS (s);
    char fn[BUFSIZ];
    snprintf (fn, sizeof fn, "%s/p6-%d", scratch, id);
    begin6 (f);
    if (sp < 0) { sp = 1; p6est_save (fn, f, sd); } else p6est_save_ext (fn, f, sd, sp);
    preint ("s", s); preint ("id", id); preint ("sd", sd); preint ("sp", sp);
    end6 (f, k);
    return 1;
  }
  if (!strcmp (k, "hload")) {   /* of the file of hsave id, made from slot s */
    int d = toki (), id = toki (), cslot = toki (), dsz = toki (), ld = toki (), autop = toki (), bc = toki ();
    char fn[BUFSIZ];
    p6est_connectivity_t *cc = NULL;
    int ceq;
    snprintf (fn, sizeof fn, "%s/p6-%d", scratch, id);
    hdrop (d);
    upbad = 0; expected_up = &H[d].mark;
    if (autop < 0) { autop = 0; bc = 0; H[d].f = p6est_load (fn, comm, dsz, ld, &H[d].mark, &cc); }
    else H[d].f = p6est_load_ext (fn, comm, dsz, ld, autop, bc, &H[d].mark, &cc);
    H[d].c = cc; H[d].cslot = cslot;
    ceq = p4est_connectivity_is_equal (cc->conn4, C[cslot]);
    preint ("s", d); preint ("id", id); preint ("cs", cslot); preint ("dsz", dsz); preint ("ld", ld); preint ("autop", autop);
    locint ("ceq", ceq);
    end6 (H[d].f, k);
    return 1;
  }
  if (!strcmp (k, "hcio")) {    /* the connectivity with its vertical extent through a file */
    int s = toki ();
    p6est_connectivity_t *a = H[s].c, *b;
    char fn[BUFSIZ];
    int ok = -1, r = -1;
    size_t bytes = 0;
    if (rank == 0) {
      snprintf (fn, sizeof fn, "%s/p6c", scratch);
      r = p6est_connectivity_save (fn, a);
      b = p6est_connectivity_load (fn, &bytes);
      ok = b != NULL && p4est_connectivity_is_equal (a->conn4, b->conn4) && (a->top_vertices == NULL) == (b->top_vertices == NULL)
        && (a->top_vertices ? !memcmp (a->top_vertices, b->top_vertices, sizeof (double) * 3 * a->conn4->num_vertices) : !memcmp (a->height, b->height, sizeof (a->height)));
      if (b) p6est_connectivity_destroy (b);
    }
    preint ("s", s);
    locint ("ok", ok); locint ("ret", r);
    emit (k);
    return 1;
  }
  return 0;
}
#endif
