/* searches through the local forest and the partition; ownership queries */
#include "drv.h"

typedef struct { p4est_topidx_t t; p4est_quadrant_t q; int id; } spt_t;
static p4est_t *sf;             /* the forest searched */
static int smode, sdummy, sbad; /* mode; dummy forest expected; bad pointers */
static uint64_t sseed;
static sc_array_t *spts;

static int inside (const p4est_quadrant_t *a, const p4est_quadrant_t *b)
{ return p4est_quadrant_is_equal (a, b) || p4est_quadrant_is_ancestor (a, b); }

static void sp_check (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t ln)
{
  p4est_tree_t *tr;
  if (sdummy) { if (f->user_pointer != (void *) &sseed) sbad = 1; return; }
  if (f != sf) { sbad = 1; return; }
  if (ln >= 0) {
    p4est_topidx_t tt;
    if (ln >= sf->local_num_quadrants || drv_local (sf, ln, &tt) != q || tt != t) sbad = 1;
  }
  else if (sf->first_local_tree <= t && t <= sf->last_local_tree) {
    tr = p4est_tree_array_index (sf->trees, t);
    if ((char *) q >= tr->quadrants.array && (char *) q < tr->quadrants.array + tr->quadrants.elem_count * sizeof (*q)) sbad = 1;
  }
}
static int ans_quad (p4est_topidx_t t, p4est_quadrant_t *q, int salt)
{ return hashq (sseed + 77 * salt, t, q) % 100 < 88; }
static int ans_point (p4est_topidx_t t, p4est_quadrant_t *q, spt_t *p)
{
  int in = p->t == t && inside (q, &p->q);
  unsigned h = (unsigned) (hashq (sseed + 1000 + p->id, t, q) % 100);
  return in ? h >= 4 : h < 15;
}
static int sp_log (const char *kq, p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q,
                   int pf, int pl, p4est_locidx_t ln, void *point)
{
  int a;
  char *pb = spts == NULL ? NULL : spts->array;
  sp_check (f, t, q, ln);
  sb_sep (&cb);
  if (point == NULL) {
    a = ans_quad (t, q, kq[0] == 'z' ? 3 : 1);
    sb_printf (&cb, "[\"%s\",", kq);
    put_quad (&cb, t, q);
    sb_printf (&cb, ",%d,%d,%d,-1,%d]", (int) ln, pf, pl, a);
  }
  else {
    spt_t *p = (spt_t *) point;
    if (pb == NULL || (char *) point < pb || (char *) point >= pb + spts->elem_count * sizeof (spt_t)
        || ((char *) point - pb) % sizeof (spt_t)) { sbad = 1; return 1; }
    a = ans_point (t, q, p);
    sb_printf (&cb, "[\"p\",");
    put_quad (&cb, t, q);
    sb_printf (&cb, ",%d,%d,%d,%d,%d]", (int) ln, pf, pl, p->id, a);
  }
  return a;
}
static int sl_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t ln, void *p)
{ return sp_log ("q", f, t, q, -1, -1, ln, p); }
static int sl_post (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t ln, void *p)
{ return sp_log ("z", f, t, q, -1, -1, ln, p); }
static int sp_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, int pf, int pl, void *p)
{ return sp_log ("q", f, t, q, pf, pl, -1, p); }
static int sa_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q, int pf, int pl, p4est_locidx_t ln, void *p)
{ return sp_log ("q", f, t, q, pf, pl, ln, p); }

static int so_fn (p4est_t *f, sc_array_t *quads, sc_array_t *idx)
{
  size_t z, n = idx->elem_count;
  p4est_topidx_t *a, x;
  p4est_quadrant_t *q;
  int h, ans = 1;
  if (f != sf || idx->elem_size != sizeof (p4est_topidx_t)) sbad = 1;
  sb_sep (&cb); sb_printf (&cb, "[\"r\",[");
  for (z = 0; z < quads->elem_count; ++z) {
    q = p4est_quadrant_array_index (quads, z);
    sb_sep (&cb); put_quad (&cb, q->p.piggy1.which_tree, q);
  }
  sb_printf (&cb, "],[");
  for (z = 0; z < n; ++z) { sb_sep (&cb); sb_printf (&cb, "%d", (int) *(p4est_topidx_t *) sc_array_index (idx, z)); }
  q = p4est_quadrant_array_index (quads, 0);
  h = (int) (hashq (sseed + 5, q->p.piggy1.which_tree, q) % 100);
  rnd_seed (hashq (sseed + 6, q->p.piggy1.which_tree, q));
  if (h >= 25) {
    for (z = 0; z + 1 < n; ++z) {
      size_t y = z + (size_t) (rnd () % (n - z));
      a = (p4est_topidx_t *) idx->array;
      x = a[z]; a[z] = a[y]; a[y] = x;
    }
    if (h >= 70 && n > 0) sc_array_resize (idx, h >= 97 ? 0 : 1 + (size_t) (rnd () % n));
  }
  else if (h < 4) ans = 0;
  sb_printf (&cb, "],[");
  for (z = 0; z < idx->elem_count; ++z) { sb_sep (&cb); sb_printf (&cb, "%d", (int) *(p4est_topidx_t *) sc_array_index (idx, z)); }
  sb_printf (&cb, "],%d]", ans);
  return ans;
}

/* a random quadrant; near a partition boundary or a leaf most of the time */
static p4est_topidx_t rquad (p4est_t *f, p4est_quadrant_t *q)
{
  p4est_topidx_t t = (p4est_topidx_t) (rnd () % (uint64_t) f->connectivity->num_trees);
  int m = (int) (rnd () % 8), l;
  memset (q, 0, sizeof (*q));
  if (m < 3) {
    const p4est_quadrant_t *g = &f->global_first_position[rnd () % (uint64_t) f->mpisize];
    if (g->p.which_tree < f->connectivity->num_trees) {
      t = g->p.which_tree;
      *q = *g; q->level = P4EST_QMAXLEVEL;
      l = (int) (rnd () % (rnd () % 2 ? 6 : P4EST_QMAXLEVEL + 1));
      if (l < P4EST_QMAXLEVEL) p4est_quadrant_ancestor (q, l, q);
      if (rnd () % 3 == 0 && l > 0) p4est_quadrant_sibling (q, q, (int) (rnd () % P4EST_CHILDREN));
      return t;
    }
  }
  if (m < 6 && f->local_num_quadrants > 0) {
    p4est_quadrant_t *p = drv_local (f, (p4est_locidx_t) (rnd () % (uint64_t) f->local_num_quadrants), &t);
    *q = *p;
    if (rnd () % 2 && q->level > 0) p4est_quadrant_ancestor (q, (int) (rnd () % (uint64_t) q->level), q);
    else if (rnd () % 2 && q->level < P4EST_QMAXLEVEL) p4est_quadrant_child (q, q, (int) (rnd () % P4EST_CHILDREN));
    return t;
  }
  q->level = 0;
  l = (int) (rnd () % (rnd () % 2 ? 5 : P4EST_QMAXLEVEL + 1));
  while (q->level < l) { p4est_quadrant_t p = *q; p4est_quadrant_child (&p, q, (int) (rnd () % P4EST_CHILDREN)); }
  return t;
}
static p4est_topidx_t ratom (p4est_t *f, p4est_quadrant_t *q)
{
  p4est_topidx_t t = rquad (f, q);
  int m = (int) (rnd () % 3);
  if (q->level == P4EST_QMAXLEVEL) return t;
  if (m == 0) { p4est_quadrant_t p = *q; p4est_quadrant_first_descendant (&p, q, P4EST_QMAXLEVEL); }
  else if (m == 1) { p4est_quadrant_t p = *q; p4est_quadrant_last_descendant (&p, q, P4EST_QMAXLEVEL); }
  else while (q->level < P4EST_QMAXLEVEL) { p4est_quadrant_t p = *q; p4est_quadrant_child (&p, q, (int) (rnd () % P4EST_CHILDREN)); }
  return t;
}

static void pq (p4est_t *f, int n)
{
  p4est_quadrant_t q, u, a, *pp;
  p4est_topidx_t t, tt;
  p4est_locidx_t li;
  p4est_tree_t *tr;
  int i, j, r, g;
  for (i = 0; i < n; ++i) {
    int kind = (int) (rnd () % 12);
    sb_sep (&cb);
    t = rquad (f, &q);
    r = (int) (rnd () % (uint64_t) f->mpisize);
    switch (kind) {
    case 0: case 1:
      sb_printf (&cb, "[\"fo\","); put_quad (&cb, t, &q);
      sb_printf (&cb, ",%d,%d]", r, p4est_comm_find_owner (f, t, &q, r));
      break;
    case 2:
      sb_printf (&cb, "[\"io\","); put_quad (&cb, t, &q);
      sb_printf (&cb, ",%d,%d,%d]", r, p4est_comm_is_owner (f, t, &q, r) ? 1 : 0,
                 p4est_comm_is_owner_gfp (f->global_first_position, f->mpisize, f->connectivity->num_trees, t, &q, r) ? 1 : 0);
      break;
    case 3:
      sb_printf (&cb, "[\"ic\","); put_quad (&cb, t, &q);
      sb_printf (&cb, ",%d,%d]", r, p4est_comm_is_contained (f, t, &q, r) ? 1 : 0);
      break;
    case 4:
      sb_printf (&cb, "[\"ie\",%d,%d,%d,%d]", r, p4est_comm_is_empty (f, r) ? 1 : 0,
                 p4est_comm_is_empty_gfq (f->global_first_quadrant, f->mpisize, r) ? 1 : 0,
                 p4est_comm_is_empty_gfp (f->global_first_position, f->mpisize, r) ? 1 : 0);
      break;
    case 5: {
      p4est_gloidx_t x = (p4est_gloidx_t) (rnd () % (uint64_t) f->global_num_quadrants);
      sb_printf (&cb, "[\"bs\",%ld,%d]", (long) x, p4est_bsearch_partition (x, f->global_first_quadrant, f->mpisize));
      break;
    }
    case 6: {
      p4est_gloidx_t x = (p4est_gloidx_t) (rnd () % 200), *o;
      int np = 1 + (int) (rnd () % 9);
      o = (p4est_gloidx_t *) malloc (sizeof (*o) * (size_t) (np + 1));
      p4est_comm_global_first_quadrant (x, np, o);
      sb_printf (&cb, "[\"gf\",%ld,%d,[", (long) x, np);
      for (j = 0; j <= np; ++j) { sb_sep (&cb); sb_printf (&cb, "%ld", (long) o[j]); }
      sb_printf (&cb, "]]");
      free (o);
      break;
    }
    case 7: {
      /* bounds in one local tree */
      ssize_t lo, hi, lo2, hi2; size_t ne, gs;
      sb_printf (&cb, "[\"lh\",");
      if (f->local_num_quadrants > 0 && (t < f->first_local_tree || t > f->last_local_tree)) t = f->first_local_tree;
      put_quad (&cb, t, &q);
      if (f->local_num_quadrants == 0) { sb_printf (&cb, ",-9,-9,-9,-9]"); break; }
      tr = p4est_tree_array_index (f->trees, t);
      ne = tr->quadrants.elem_count; gs = (size_t) (rnd () % ne);
      lo = p4est_find_lower_bound (&tr->quadrants, &q, gs);
      hi = p4est_find_higher_bound (&tr->quadrants, &q, gs);
      lo2 = p4est_find_lower_bound (&tr->quadrants, &q, ne - 1 - gs);
      hi2 = p4est_find_higher_bound (&tr->quadrants, &q, 0);
      sb_printf (&cb, ",%ld,%ld,%ld,%ld]", (long) lo, (long) hi, (long) lo2, (long) hi2);
      break;
    }
    case 8:
      sb_printf (&cb, "[\"qc\",");
      if (f->local_num_quadrants == 0) { sb_printf (&cb, "-9]"); break; }
      {
        p4est_locidx_t ci = (p4est_locidx_t) (rnd () % (uint64_t) f->local_num_quadrants);
        p4est_topidx_t wt = rnd () % 2 ? -1 : f->first_local_tree + (p4est_topidx_t) (rnd () % (uint64_t) (f->last_local_tree - f->first_local_tree + 1));
        tr = wt >= 0 ? p4est_tree_array_index (f->trees, wt) : NULL;
        if (tr != NULL && tr->quadrants.elem_count == 0) wt = -1;
        li = -1;
        if (rnd () % 5 == 0) { pp = p4est_find_quadrant_cumulative (f, ci, NULL, NULL); drv_local (f, ci, &wt); tr = p4est_tree_array_index (f->trees, wt); li = ci - tr->quadrants_offset; }
        else pp = p4est_find_quadrant_cumulative (f, ci, &wt, &li);
        sb_printf (&cb, "%d,", (int) ci); put_quad (&cb, wt, pp);
        sb_printf (&cb, ",%d,%d]", (int) li, pp == drv_local (f, ci, &tt) ? 1 : 0);
      }
      break;
    case 9: {
      /* split the leaves below an ancestor of a local leaf */
      size_t ind[P4EST_CHILDREN + 1], k0, k1; sc_array_t v; int lev;
      sb_printf (&cb, "[\"sa\",");
      if (f->local_num_quadrants == 0) { sb_printf (&cb, "-9]"); break; }
      li = (p4est_locidx_t) (rnd () % (uint64_t) f->local_num_quadrants);
      pp = drv_local (f, li, &t);
      if (pp->level == 0) { sb_printf (&cb, "-9]"); break; }
      lev = (int) (rnd () % (uint64_t) pp->level);
      p4est_quadrant_ancestor (pp, lev, &a);
      tr = p4est_tree_array_index (f->trees, t);
      k0 = k1 = (size_t) (li - tr->quadrants_offset);
      while (k0 > 0 && inside (&a, p4est_quadrant_array_index (&tr->quadrants, k0 - 1))) --k0;
      ++k1;
      while (k1 < tr->quadrants.elem_count && inside (&a, p4est_quadrant_array_index (&tr->quadrants, k1))) ++k1;
      sc_array_init_view (&v, &tr->quadrants, k0, k1 - k0);
      p4est_split_array (&v, lev, ind);
      put_quad (&cb, t, &a);
      sb_printf (&cb, ",%d,[", (int) (tr->quadrants_offset + (p4est_locidx_t) k0));
      for (j = 0; j <= P4EST_CHILDREN; ++j) { sb_sep (&cb); sb_printf (&cb, "%ld", (long) ind[j]); }
      sb_printf (&cb, "]]");
      break;
    }
    case 10: {
      /* boundary of a range */
      int fa[P4EST_FACES], co[P4EST_CHILDREN], lev, m = (int) (rnd () % 8), nil;
      int32_t ret;
#ifdef P4_TO_P8
      int ed[P8EST_EDGES];
#endif
      t = ratom (f, &q);
      lev = (int) (rnd () % 5); if (rnd () % 6 == 0) lev = (int) (rnd () % P4EST_QMAXLEVEL);
      p4est_quadrant_ancestor (&q, lev, &a);
      /* another atom below the same ancestor, often near q */
      u = rnd () % 2 ? q : a;
      if (u.level > lev) p4est_quadrant_ancestor (&u, lev + (int) (rnd () % (uint64_t) (u.level - lev)), &u);
      g = (int) (rnd () % 3);
      while (u.level < P4EST_QMAXLEVEL) { p4est_quadrant_t p = u;
        p4est_quadrant_child (&p, &u, g == 0 ? 0 : g == 1 ? P4EST_CHILDREN - 1 : (int) (rnd () % P4EST_CHILDREN));
        if (rnd () % 4 == 0) g = (int) (rnd () % 3); }
      if (p4est_quadrant_compare (&q, &u) > 0) { p4est_quadrant_t p = q; q = u; u = p; }
      nil = m == 0 ? 1 : m == 1 ? 2 : m == 2 ? 3 : 0;
      if (nil == 0 && p4est_quadrant_is_equal (&q, &u)) nil = 1;
#ifdef P4_TO_P8
      ret = p8est_find_range_boundaries (nil & 1 ? NULL : &q, nil & 2 ? NULL : &u, lev, fa, ed, co);
#else
      ret = p4est_find_range_boundaries (nil & 1 ? NULL : &q, nil & 2 ? NULL : &u, lev, fa, co);
#endif
      sb_printf (&cb, "[\"rb\","); put_quad (&cb, t, &q); sb_printf (&cb, ","); put_quad (&cb, t, &u);
      sb_printf (&cb, ",%d,%d,%d,[", nil, lev, (int) ret);
      for (j = 0; j < P4EST_FACES; ++j) { sb_sep (&cb); sb_printf (&cb, "%d", fa[j] ? 1 : 0); }
#ifdef P4_TO_P8
      for (j = 0; j < P8EST_EDGES; ++j) { sb_sep (&cb); sb_printf (&cb, "%d", ed[j] ? 1 : 0); }
#endif
      for (j = 0; j < P4EST_CHILDREN; ++j) { sb_sep (&cb); sb_printf (&cb, "%d", co[j] ? 1 : 0); }
      sb_printf (&cb, "]]");
      break;
    }
    default: {
      /* search two targets in a sorted array */
      int np = 1 + (int) (rnd () % 8);
      p4est_gloidx_t *s = (p4est_gloidx_t *) malloc (sizeof (*s) * (size_t) np), b, e, ob = -5, oe = -5;
      s[0] = (p4est_gloidx_t) (rnd () % 4);
      for (j = 1; j < np; ++j) s[j] = s[j - 1] + (p4est_gloidx_t) (rnd () % 4);
      b = (p4est_gloidx_t) (rnd () % (uint64_t) (s[np - 1] + 2));
      e = b + (p4est_gloidx_t) (rnd () % 6);
      p4est_find_partition (np, s, b, e, &ob, &oe);
      sb_printf (&cb, "[\"fp\",[");
      for (j = 0; j < np; ++j) { sb_sep (&cb); sb_printf (&cb, "%ld", (long) s[j]); }
      sb_printf (&cb, "],%ld,%ld,%ld,%ld]", (long) b, (long) e, (long) ob, (long) oe);
      free (s);
      break;
    }
    }
  }
}

int op_search (const char *k)
{
  if (!strcmp (k, "search")) {
    /* search s mode flags seed npts
     * mode 0 local 1 compat 2/3 reorder without/with skipping
     * 4 partition 5 gfx 6 gfp 7 all
     * flags 1 quadrant function 2 points 4 post call 8 reorder 16 post fn */
    int s = toki (), m = toki (), fl = toki (), i, n;
    uint64_t sd = (uint64_t) tokl ();
    sc_array_t pts;
    spt_t *p;
    n = toki ();
    sf = drv_forest (s);
    smode = m; sseed = hash64 (sd); sbad = 0; sdummy = m == 5 || m == 6;
    sc_array_init (&pts, sizeof (spt_t));
    rnd_seed (sseed);
    for (i = 0; i < n; ++i) {
      p4est_quadrant_t c;
      p = (spt_t *) sc_array_push (&pts);
      memset (p, 0, sizeof (*p));
      p->id = i;
      p->t = (p4est_topidx_t) (rnd () % (uint64_t) sf->connectivity->num_trees);
      while (p->q.level < P4EST_QMAXLEVEL) { c = p->q; p4est_quadrant_child (&c, &p->q, (int) (rnd () % P4EST_CHILDREN)); }
    }
    spts = fl & 2 ? &pts : NULL;
    sb_reset (&cb);
    switch (m) {
    case 0: p4est_search_local (sf, fl & 4 ? 1 : 0, fl & 1 ? sl_fn : NULL, fl & 2 ? sl_fn : NULL, spts); break;
    case 1: p4est_search (sf, fl & 1 ? sl_fn : NULL, fl & 2 ? sl_fn : NULL, spts); break;
    case 2: case 3:
      p4est_search_reorder (sf, m - 2, fl & 8 ? so_fn : NULL, fl & 1 ? sl_fn : NULL, fl & 16 ? sl_post : NULL, fl & 2 ? sl_fn : NULL, spts); break;
    case 4: p4est_search_partition (sf, fl & 4 ? 1 : 0, fl & 1 ? sp_fn : NULL, fl & 2 ? sp_fn : NULL, spts); break;
    case 5: p4est_search_partition_gfx (sf->global_first_quadrant, sf->global_first_position, sf->mpisize, sf->connectivity->num_trees,
                                        fl & 4 ? 1 : 0, &sseed, fl & 1 ? sp_fn : NULL, fl & 2 ? sp_fn : NULL, spts); break;
    case 6: p4est_search_partition_gfp (sf->global_first_position, sf->mpisize, sf->connectivity->num_trees,
                                        fl & 4 ? 1 : 0, &sseed, fl & 1 ? sp_fn : NULL, fl & 2 ? sp_fn : NULL, spts); break;
    default: p4est_search_all (sf, fl & 4 ? 1 : 0, fl & 1 ? sa_fn : NULL, fl & 2 ? sa_fn : NULL, spts); break;
    }
    preint ("s", s); preint ("m", m); preint ("fl", fl); preint ("np", n);
    locint ("bad", sbad); 
    sb_sep (&loc); sb_printf (&loc, "\"cb\":[%.*s]", (int) cb.n, cb.s);
    sc_array_reset (&pts); spts = NULL;
    emit ("search");
    return 1;
  }
  if (!strcmp (k, "pquery")) {
    /* pquery s seed n */
    int s = toki (), n, j;
    uint64_t sd = (uint64_t) tokl ();
    p4est_gloidx_t *pt;
    n = toki ();
    sf = drv_forest (s);
    rnd_seed (hash64 (sd) + (uint64_t) rank * 1237);
    sb_reset (&cb);
    pq (sf, n);
    preint ("s", s);
    pt = (p4est_gloidx_t *) malloc (sizeof (*pt) * (size_t) (sf->connectivity->num_trees + 1));
    p4est_comm_count_pertree (sf, pt);
    sb_sep (&loc); sb_printf (&loc, "\"pt\":[");
    for (j = 0; j <= sf->connectivity->num_trees; ++j) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) pt[j]); }
    sb_printf (&loc, "]");
    free (pt);
    sb_sep (&loc); sb_printf (&loc, "\"cb\":[%.*s]", (int) cb.n, cb.s);
    emit ("pquery");
    return 1;
  }
  return 0;
}
