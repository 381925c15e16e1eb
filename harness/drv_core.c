#include "drv.h"
#include <unistd.h>

static pred_t thepred;
static int weight_kind, weight_scale;
static uint64_t weight_seed;
static int weight_max;

static p4est_t *FS (int s) { if (s < 0 || s >= NSLOT || !F[s].f) { fprintf (stderr, "DRV: slot %d empty\n", s); MPI_Abort (MPI_COMM_WORLD, 9); } return F[s].f; }

static int refine_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q)
{
  int a = pred_eval (&thepred, t, q);
  sb_sep (&cb); sb_printf (&cb, "[\"a\",%d,", a);
  put_quad (&cb, t, q);
  sb_printf (&cb, ",%d]", payload_get (f, q));
  return a;
}
static int coarsen_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q[])
{
  int a = 0, i;
  if (q[1] == NULL) {
    sb_sep (&cb); sb_printf (&cb, "[\"o\",");
    put_quad (&cb, t, q[0]);
    sb_printf (&cb, ",%d]", payload_get (f, q[0]));
    return (int) (rnd () % 2);          /* documented to be ignored */
  }
  {
    p4est_quadrant_t p;
    p4est_quadrant_t c = *q[0];
    /* parent computed here, not by the library */
    p4est_qcoord_t h = P4EST_QUADRANT_LEN (c.level);
    p = c; p.level = c.level - 1; p.x = c.x & ~h; p.y = c.y & ~h;
#ifdef P4_TO_P8
    p.z = c.z & ~h;
#endif
    a = pred_eval (&thepred, t, &p);
  }
  sb_sep (&cb); sb_printf (&cb, "[\"c\",%d,[", a);
  for (i = 0; i < P4EST_CHILDREN; ++i) put_quad (&cb, t, q[i]);
  sb_printf (&cb, "],[");
  for (i = 0; i < P4EST_CHILDREN; ++i) { sb_sep (&cb); sb_printf (&cb, "%d", payload_get (f, q[i])); }
  sb_printf (&cb, "]]");
  return a;
}
static int weight_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q)
{
  int w = 0;
  uint64_t h = hashq (weight_seed, t, q);
  switch (weight_kind) {
  case 0: w = 0; break;
  case 1: w = 1; break;
  case 2: w = (int) (h % (weight_max + 1)); break;
  case 3: w = h % 10 == 0 ? weight_max : 0; break;       /* sparse */
  case 4: w = q->level; break;
  case 5: w = h % 8 == 0 ? weight_max : 1; break;        /* skewed */
  }
  sb_sep (&cb); sb_printf (&cb, "[\"w\",%d,", w);
  put_quad (&cb, t, q); sb_printf (&cb, ",%d]", payload_get (f, q));
  return w * weight_scale;
}
static void preflags (const char *n, long v)
{ if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"%s\":%ld", n, v); } }
void put_cb (void)
{ sb_sep (&loc); sb_printf (&loc, "\"cb\":[%.*s]", (int) cb.n, cb.s); }

static long capnow (void) { const char *e = getenv ("DRV_CAP"); return e ? atol (e) : 300; }

int op_core (const char *k)
{
  if (!strcmp (k, "new")) {
    int s = toki (), c = toki (), minq = toki (), minl = toki (), fill = toki (), dsz = toki (), fl = toki ();
    if (F[s].f) { p4est_destroy (F[s].f); F[s].f = NULL; }
    F[s].f = p4est_new_ext (comm, C[c], minq, minl, fill, dsz, (fl & 1) ? drv_init_fn : NULL, &F[s]);
    F[s].cslot = c;
    preflags ("s", s); preflags ("cs", c); preflags ("minq", minq); preflags ("minl", minl);
    preflags ("fill", fill); preflags ("dsz", dsz); preflags ("fl", fl);
    put_state (F[s].f); put_cb (); emit ("new");
    return 1;
  }
  if (!strcmp (k, "refine")) {
    int s = toki (), rec = toki (), maxl = toki (), fl = toki (), budget = toki ();
    p4est_t *f = FS (s);
    pred_parse (&thepred);
    thepred.budget = budget ? budget + 1 : 0;
    if (f->global_num_quadrants > capnow ()) { pred_free (&thepred); return 1; }
    cbflags = fl;
    if (maxl == -2 && !(fl & 2))
      p4est_refine (f, rec, refine_fn, (fl & 1) ? drv_init_fn : NULL);
    else
      p4est_refine_ext (f, rec, maxl, refine_fn, (fl & 1) ? drv_init_fn : NULL, (fl & 2) ? drv_replace_fn : NULL);
    pred_free (&thepred);
    preflags ("s", s); preflags ("rec", rec); preflags ("maxl", maxl < 0 ? P4EST_QMAXLEVEL : maxl); preflags ("fl", fl);
    put_state (f); put_cb (); emit ("refine");
    return 1;
  }
  if (!strcmp (k, "coarsen")) {
    int s = toki (), rec = toki (), orph = toki (), fl = toki ();
    p4est_t *f = FS (s);
    pred_parse (&thepred);
    cbflags = fl;
    if (!orph && !(fl & 2))
      p4est_coarsen (f, rec, coarsen_fn, (fl & 1) ? drv_init_fn : NULL);
    else
      p4est_coarsen_ext (f, rec, orph, coarsen_fn, (fl & 1) ? drv_init_fn : NULL, (fl & 2) ? drv_replace_fn : NULL);
    pred_free (&thepred);
    preflags ("s", s); preflags ("rec", rec); preflags ("orph", orph); preflags ("fl", fl);
    put_state (f); put_cb (); emit ("coarsen");
    return 1;
  }
  if (!strcmp (k, "balance")) {
    int s = toki (), kind = toki (), fl = toki ();
    p4est_t *f = FS (s);
    p4est_inspect_t insp;
    p4est_connect_type_t bt;
#ifdef P4_TO_P8
    bt = kind == 1 ? P8EST_CONNECT_FACE : kind == 2 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_CORNER;
#else
    bt = kind == 1 ? P4EST_CONNECT_FACE : P4EST_CONNECT_CORNER;
#endif
    memset (&insp, 0, sizeof (insp));
    if (fl & 12) {              /* algorithmic switches must not matter */
      if (fl & 4) insp.use_balance_ranges = 1;
      if (fl & 8) { insp.use_balance_ranges_notify = 1; insp.use_balance_verify = 1; }
      insp.balance_max_ranges = (fl & 16) ? 1 : 0;
      f->inspect = &insp;
    }
    if (fl & 2)
      p4est_balance_ext (f, bt, (fl & 1) ? drv_init_fn : NULL, drv_replace_fn);
    else
      p4est_balance (f, bt, (fl & 1) ? drv_init_fn : NULL);
    f->inspect = NULL;
    preflags ("s", s); preflags ("kind", kind); preflags ("fl", fl);
    put_state (f); put_cb (); emit ("balance");
    return 1;
  }
  if (!strcmp (k, "partition")) {
    int s = toki (), pfc = toki (), wk = toki ();
    p4est_gloidx_t r;
    p4est_t *f = FS (s);
    weight_kind = wk; weight_seed = 0; weight_max = 1; weight_scale = 1;
    if (wk >= 0) { weight_seed = toki (); weight_max = toki (); weight_scale = toki (); }
    if (pfc < 0) { p4est_partition (f, pfc == -2, wk < 0 ? NULL : weight_fn); r = -1; }
    else r = p4est_partition_ext (f, pfc, wk < 0 ? NULL : weight_fn);
    preflags ("s", s); preflags ("pfc", pfc == -2 || pfc == 1); preflags ("wk", wk < 0 ? 0 : 1);
    preflags ("wscale", weight_scale);
    sb_sep (&loc); sb_printf (&loc, "\"ret\":%lld", (long long) r);
    put_state (f); put_cb (); emit ("partition");
    return 1;
  }
  if (!strcmp (k, "given")) {   /* prescribed counts, drawn from the seed */
    int s = toki (), mode = toki (), i, sd = toki ();
    p4est_t *f = FS (s);
    p4est_gloidx_t r, N = f->global_num_quadrants, at = 0;
    p4est_gloidx_t *cut = (p4est_gloidx_t *) calloc (nproc + 1, sizeof (p4est_gloidx_t));
    p4est_locidx_t *num = (p4est_locidx_t *) calloc (nproc, sizeof (p4est_locidx_t));
    for (i = 1; i < nproc; ++i) {
      uint64_t h = hash64 (sd * 1009ULL + i);
      if (mode == 0) cut[i] = h % (N + 1);                      /* random */
      else if (mode == 1) cut[i] = (h % 3 == 0) ? 0 : h % 3 == 1 ? N : h / 3 % (N + 1);
      else if (mode == 2) cut[i] = (i > sd % nproc) ? N : 0;    /* all on one */
      else cut[i] = N * i / nproc + (p4est_gloidx_t) (h % 3) - 1;
      if (cut[i] < 0) cut[i] = 0;
      if (cut[i] > N) cut[i] = N;
    }
    cut[nproc] = N;
    if (mode == 9)              /* counts prescribed by the script */
      for (i = 0; i < nproc; ++i) cut[i + 1] = cut[i] + toki ();
    if (cut[nproc] != N) {      /* the forest is not what the script assumes */
      for (i = 1; i <= nproc; ++i) cut[i] = N;
    }
    for (i = 1; i < nproc; ++i) { int j; for (j = i + 1; j < nproc; ++j) if (cut[j] < cut[i]) { p4est_gloidx_t x = cut[i]; cut[i] = cut[j]; cut[j] = x; } }
    for (i = 0; i < nproc; ++i) { num[i] = (p4est_locidx_t) (cut[i + 1] - cut[i]); at += num[i]; }
    r = p4est_partition_given (f, num);
    if (r > 0 && nproc > 1) f->revision += 0;
    preflags ("s", s);
    if (rank == 0) {
      sb_sep (&pre); sb_printf (&pre, "\"num\":[");
      for (i = 0; i < nproc; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", (int) num[i]); }
      sb_printf (&pre, "]");
    }
    free (cut); free (num);
    sb_sep (&loc); sb_printf (&loc, "\"ret\":%lld", (long long) r);
    put_state (f); emit ("given");
    return 1;
  }
  if (!strcmp (k, "expect")) {  /* state predicted by the specification */
    int s = toki (), i, j, n;
    const char *p = tok ();
    preflags ("s", s);
    if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"p\":\"%s\",\"cut\":[", p); }
    for (i = 0; i <= nproc; ++i) {
      n = toki ();
      if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "%d", n); }
    }
    n = toki ();
    if (rank == 0) { sb_printf (&pre, "],\"L\":["); }
    for (i = 0; i < n; ++i) {
      if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "["); }
      for (j = 0; j < P4EST_DIM + 2; ++j) {
        long v = tokl ();
        if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "%ld", v); }
      }
      if (rank == 0) sb_printf (&pre, "]");
    }
    if (rank == 0) sb_printf (&pre, "]");
    emit ("expect");
    return 1;
  }
  if (!strcmp (k, "copy")) {
    int s = toki (), d = toki (), cd = toki (), dup = toki ();
    p4est_t *f = FS (s);
    if (F[d].f) p4est_destroy (F[d].f);
    F[d].f = dup ? p4est_copy_ext (f, cd, 0) : p4est_copy (f, cd);
    F[d].cslot = F[s].cslot;
    preflags ("s", s); preflags ("d", d); preflags ("cd", cd);
    put_state (F[d].f); emit ("copy");
    return 1;
  }
  if (!strcmp (k, "reset")) {
    int s = toki (), dsz = toki (), fl = toki ();
    p4est_t *f = FS (s);
    p4est_reset_data (f, dsz, (fl & 1) ? drv_init_fn : NULL, &F[s]);
    preflags ("s", s); preflags ("dsz", dsz); preflags ("fl", fl);
    put_state (f); put_cb (); emit ("reset");
    return 1;
  }
  if (!strcmp (k, "equal")) {
    int s = toki (), d = toki (), cd = toki ();
    p4est_t *f = FS (s), *g = FS (d);
    if (f->connectivity != g->connectivity || (cd && f->data_size != g->data_size)) return 1;
    preflags ("s", s); preflags ("d", d); preflags ("cd", cd);
    sb_sep (&loc); sb_printf (&loc, "\"ret\":%d", p4est_is_equal (f, g, cd));
    emit ("equal");
    return 1;
  }
  if (!strcmp (k, "cksum")) {
    int s = toki ();
    p4est_t *f = FS (s);
    unsigned c = p4est_checksum (f), cp = p4est_checksum_partition (f);
    preflags ("s", s);
    sb_sep (&loc); sb_printf (&loc, "\"ck\":[%u,%u],\"cp\":[%u,%u]", c >> 16, c & 0xffff, cp >> 16, cp & 0xffff);
    emit ("cksum");
    return 1;
  }
  if (!strcmp (k, "valid")) {   /* the library's own judgement */
    int s = toki ();
    p4est_t *f = FS (s);
    preflags ("s", s);
    sb_sep (&loc); sb_printf (&loc, "\"ret\":%d,\"b1\":%d,\"b2\":%d,\"b3\":%d", p4est_is_valid (f),
      p4est_is_balanced (f, P4EST_CONNECT_FACE),
#ifdef P4_TO_P8
      p4est_is_balanced (f, P8EST_CONNECT_EDGE), p4est_is_balanced (f, P8EST_CONNECT_CORNER)
#else
      p4est_is_balanced (f, P4EST_CONNECT_CORNER), 0
#endif
    );
    emit ("valid");
    return 1;
  }
  if (!strcmp (k, "modify")) {  /* application writes some payloads */
    int s = toki (), sd = toki (), pm = toki ();
    p4est_t *f = FS (s);
    p4est_topidx_t t;
    size_t zz;
    if (f->data_size > 0)
      for (t = f->first_local_tree; t <= f->last_local_tree; ++t) {
        p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
        for (zz = 0; zz < tr->quadrants.elem_count; ++zz) {
          p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, zz);
          if ((int) (hashq (sd, t, q) % 1000) < pm) payload_set (f, q, new_id ());
        }
      }
    preflags ("s", s);
    put_state (f); emit ("modify");
    return 1;
  }
  if (!strcmp (k, "destroy")) {
    int s = toki ();
    if (F[s].f) p4est_destroy (F[s].f);
    F[s].f = NULL;
    return 1;
  }
  return 0;
}
