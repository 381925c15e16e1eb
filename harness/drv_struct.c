/* ghost layers and ghost exchange */
#include "drv.h"

gslot_t GH[NSLOT];

p4est_t *drv_forest (int s)
{ if (s < 0 || s >= NSLOT || !F[s].f) { fprintf (stderr, "DRV: slot %d empty\n", s); MPI_Abort (MPI_COMM_WORLD, 9); } return F[s].f; }
p4est_ghost_t *drv_ghost (int g)
{ if (g < 0 || g >= NSLOT || !GH[g].g) { fprintf (stderr, "DRV: ghost slot %d empty\n", g); MPI_Abort (MPI_COMM_WORLD, 9); } return GH[g].g; }
p4est_connect_type_t drv_btype (int kind)
{
#ifdef P4_TO_P8
  return kind == 1 ? P8EST_CONNECT_FACE : kind == 2 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_CORNER;
#else
  return kind == 1 ? P4EST_CONNECT_FACE : P4EST_CONNECT_CORNER;
#endif
}
void preint (const char *n, long v)
{ if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"%s\":%ld", n, v); } }
void locint (const char *n, long v)
{ sb_sep (&loc); sb_printf (&loc, "\"%s\":%ld", n, v); }
void loclist (const char *n, const p4est_locidx_t *a, int len)
{
  int i;
  sb_sep (&loc); sb_printf (&loc, "\"%s\":[", n);
  for (i = 0; i < len; ++i) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) a[i]); }
  sb_printf (&loc, "]");
}
/* local quadrant number i with its tree */
p4est_quadrant_t *drv_local (p4est_t *f, p4est_locidx_t i, p4est_topidx_t *t)
{
  p4est_topidx_t tt;
  for (tt = f->first_local_tree; tt <= f->last_local_tree; ++tt) {
    p4est_tree_t *tr = p4est_tree_array_index (f->trees, tt);
    if (i < (p4est_locidx_t) tr->quadrants.elem_count) { *t = tt; return p4est_quadrant_array_index (&tr->quadrants, i); }
    i -= (p4est_locidx_t) tr->quadrants.elem_count;
  }
  return NULL;
}
void ghost_cleanup (void)
{
  int i;
  for (i = 0; i < NSLOT; ++i) if (GH[i].g) { p4est_ghost_destroy (GH[i].g); GH[i].g = NULL; }
}

void put_ghost (p4est_t *f, p4est_ghost_t *g)
{
  size_t zz;
  int p, fl;
  sb_sep (&loc); sb_printf (&loc, "\"g\":[");
  for (zz = 0; zz < g->ghosts.elem_count; ++zz) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (&g->ghosts, zz);
    put_quad (&loc, q->p.piggy3.which_tree, q);
  }
  sb_printf (&loc, "],\"gn\":[");
  for (zz = 0; zz < g->ghosts.elem_count; ++zz) {
    sb_sep (&loc); sb_printf (&loc, "%d", (int) p4est_quadrant_array_index (&g->ghosts, zz)->p.piggy3.local_num);
  }
  sb_printf (&loc, "],\"m\":[");
  for (zz = 0; zz < g->mirrors.elem_count; ++zz) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (&g->mirrors, zz);
    put_quad (&loc, q->p.piggy3.which_tree, q);
  }
  sb_printf (&loc, "],\"mn\":[");
  for (zz = 0; zz < g->mirrors.elem_count; ++zz) {
    sb_sep (&loc); sb_printf (&loc, "%d", (int) p4est_quadrant_array_index (&g->mirrors, zz)->p.piggy3.local_num);
  }
  sb_printf (&loc, "]");
  loclist ("to", g->tree_offsets, g->num_trees + 1);
  loclist ("po", g->proc_offsets, g->mpisize + 1);
  loclist ("mto", g->mirror_tree_offsets, g->num_trees + 1);
  loclist ("mpo", g->mirror_proc_offsets, g->mpisize + 1);
  loclist ("mpm", g->mirror_proc_mirrors, g->mirror_proc_offsets[g->mpisize]);
  fl = g->mirror_proc_fronts != NULL && g->mirror_proc_fronts != g->mirror_proc_mirrors;
  locint ("hf", fl);
  loclist ("fro", fl ? g->mirror_proc_front_offsets : NULL, fl ? g->mpisize + 1 : 0);
  loclist ("frm", fl ? g->mirror_proc_fronts : NULL, fl ? g->mirror_proc_front_offsets[g->mpisize] : 0);
  locint ("bt", (long) g->btype);
  locint ("val", p4est_ghost_is_valid (f, g));
  locint ("mem", p4est_ghost_memory_used (g) > 0);
  (void) p;
}

/* same-size neighbour of q across face, possibly outside the root */
static void fneigh (const p4est_quadrant_t *q, int face, p4est_quadrant_t *n)
{
  p4est_qcoord_t h = P4EST_QUADRANT_LEN (q->level), d = (face & 1) ? h : -h;
  *n = *q;
  if (face / 2 == 0) n->x += d; else if (face / 2 == 1) n->y += d;
#ifdef P4_TO_P8
  else n->z += d;
#endif
}
static void qchild (const p4est_quadrant_t *q, int i, p4est_quadrant_t *c)
{
  p4est_qcoord_t h = P4EST_QUADRANT_LEN (q->level + 1);
  *c = *q; c->level = q->level + 1;
  if (i & 1) c->x += h;
  if (i & 2) c->y += h;
#ifdef P4_TO_P8
  if (i & 4) c->z += h;
#endif
}
static void qparent (const p4est_quadrant_t *q, p4est_quadrant_t *c)
{
  p4est_qcoord_t h = P4EST_QUADRANT_LEN (q->level);
  *c = *q; c->level = q->level - 1; c->x &= ~h; c->y &= ~h;
#ifdef P4_TO_P8
  c->z &= ~h;
#endif
}
/* does q touch a tree edge (kind 1) or corner (kind 0)?  If so, the neighbour
 * across it and the direction */
static int tree_contact (const p4est_quadrant_t *q, int kind, int start, p4est_quadrant_t *n, int *d)
{
  p4est_qcoord_t h = P4EST_QUADRANT_LEN (q->level), co[3] = { q->x, q->y, 0 };
  int i, a;
#ifdef P4_TO_P8
  co[2] = q->z;
#endif
  for (i = 0; i < 12; ++i) {
    int num = (start + i) % 12, ok = 1, sh = 0;
    for (a = 0; a < 3; ++a) {
      int bit;
      d[a] = 0;
      if (a >= P4EST_DIM || (kind == 1 && a == num / 4)) continue;
      bit = num >> sh++ & 1;
      d[a] = bit ? 1 : -1;
      if (bit ? co[a] + h != P4EST_ROOT_LEN : co[a] != 0) ok = 0;
    }
    if (ok) {
      *n = *q; n->x += d[0] * h; n->y += d[1] * h;
#ifdef P4_TO_P8
      n->z += d[2] * h;
#endif
      return num;
    }
  }
  return -1;
}
static int qcid (const p4est_quadrant_t *q)
{
  p4est_qcoord_t h = P4EST_QUADRANT_LEN (q->level);
  int r = ((q->x & h) ? 1 : 0) | ((q->y & h) ? 2 : 0);
#ifdef P4_TO_P8
  r |= (q->z & h) ? 4 : 0;
#endif
  return q->level ? r : 0;
}

static int x_untouched (const char *p, size_t n)
{ size_t j; for (j = 0; j < n; ++j) if ((unsigned char) p[j] != 0xee) return 0; return n > 0; }
int op_ghost (const char *k)
{
  if (!strcmp (k, "ghost")) {
    int g = toki (), s = toki (), kind = toki ();
    p4est_t *f = drv_forest (s);
    if (GH[g].g) p4est_ghost_destroy (GH[g].g);
    GH[g].g = kind == 0 ? p4est_ghost_new_local (f, P4EST_CONNECT_FULL) : p4est_ghost_new (f, drv_btype (kind));
    GH[g].fslot = s;
    preint ("g", g); preint ("s", s); preint ("kind", kind);
    put_ghost (f, GH[g].g); emit ("ghost");
    return 1;
  }
  if (!strcmp (k, "gexpand")) {
    int g = toki ();
    p4est_t *f = drv_forest (GH[g].fslot);
    p4est_ghost_expand (f, drv_ghost (g));
    preint ("g", g); preint ("s", GH[g].fslot);
    put_ghost (f, GH[g].g); emit ("gexpand");
    return 1;
  }
  if (!strcmp (k, "gquery")) {
    int g = toki (), nq = toki (), i;
    p4est_ghost_t *gh = drv_ghost (g);
    p4est_t *f = drv_forest (GH[g].fslot);
    sb_reset (&cb);
    for (i = 0; i < nq; ++i) {
      uint64_t h = rnd ();
      p4est_quadrant_t n, c, *q = NULL;
      p4est_topidx_t t = 0;
      if (h % 3 == 0 && gh->ghosts.elem_count > 0) {
        /* search in the ghost layer */
        int proc, p, deeper = (int) (h / 3 % 4);
        ssize_t r;
        p4est_topidx_t tt;
        size_t zz = (h / 100) % gh->ghosts.elem_count;
        q = p4est_quadrant_array_index (&gh->ghosts, zz);
        t = q->p.piggy3.which_tree;
        for (p = 0; gh->proc_offsets[p + 1] <= (p4est_locidx_t) zz; ++p);
        n = *q;
        if (deeper == 1 && n.level < P4EST_QMAXLEVEL) { qchild (&n, (int) (h / 1000 % P4EST_CHILDREN), &c); n = c; }
        if (deeper == 2 && n.level + 1 < P4EST_QMAXLEVEL) { qchild (&n, (int) (h / 1000 % P4EST_CHILDREN), &c); qchild (&c, (int) (h / 8000 % P4EST_CHILDREN), &n); }
        if (deeper == 3 && n.level > 0) { qparent (&n, &c); if (h / 64000 % 2) qchild (&c, (int) (h / 1000 % P4EST_CHILDREN), &n); else n = c; }
        proc = h / 10 % 3 == 0 ? -1 : h / 10 % 3 == 1 ? p : (int) (h / 30 % nproc);
        if (proc == rank) proc = -1;
        tt = proc >= 0 && h / 7 % 4 == 0 ? -1 : t;
        /* without a tree the whole range of the process is searched, which is
         * ordered by tree: the query must then be unambiguous */
        if (tt == -1 && gh->tree_offsets[t + 1] - gh->tree_offsets[t] != gh->tree_offsets[gh->num_trees]) tt = t;
        n.p.piggy3.which_tree = t;
        r = p4est_ghost_bsearch (gh, proc, tt, &n);
        sb_sep (&cb); sb_printf (&cb, "[\"b\",%d,", proc); put_quad (&cb, t, &n); sb_printf (&cb, ",%d]", (int) r);
        r = p4est_ghost_contains (gh, proc, tt, &n);
        sb_sep (&cb); sb_printf (&cb, "[\"c\",%d,", proc); put_quad (&cb, t, &n); sb_printf (&cb, ",%d]", (int) r);
      }
      else if (f->local_num_quadrants > 0 && h / 5 % 3 == 0) {
        /* the same-size neighbours across a tree corner or tree edge: there
         * may be several.  Look for a local quadrant that touches one. */
        p4est_locidx_t li, l0 = (p4est_locidx_t) (h / 1000 % f->local_num_quadrants);
        int kind = P4EST_DIM == 3 ? (int) (h / 64 % 2) : 0, num = -1, d[3], ex;
        size_t zz;
        sc_array_t *ea, *rp, *rq;
        for (li = 0; li < f->local_num_quadrants && num < 0; ++li) {
          q = drv_local (f, (l0 + li) % f->local_num_quadrants, &t);
          num = tree_contact (q, kind, (int) (h / 128 % 12), &n, d);
        }
        if (num < 0) continue;
        n.p.user_data = NULL;
        ea = sc_array_new (sizeof (int)); rp = sc_array_new (sizeof (int)); rq = sc_array_new (sizeof (p4est_quadrant_t));
        ex = p4est_quadrant_exists (f, gh, t, &n, ea, rp, rq);
        sb_sep (&cb); sb_printf (&cb, "[\"x\","); put_quad (&cb, t, q);
        sb_printf (&cb, ",[%d,%d", d[0], d[1]);
        if (P4EST_DIM == 3) sb_printf (&cb, ",%d", d[2]);
        sb_printf (&cb, "],%d,[", ex ? 1 : 0);
        for (zz = 0; zz < ea->elem_count; ++zz) { sb_sep (&cb); sb_printf (&cb, "%d", *(int *) sc_array_index (ea, zz) ? 1 : 0); }
        sb_printf (&cb, "],[");
        for (zz = 0; zz < rp->elem_count; ++zz) { sb_sep (&cb); sb_printf (&cb, "%d", *(int *) sc_array_index (rp, zz)); }
        sb_printf (&cb, "],[");
        for (zz = 0; zz < rq->elem_count; ++zz) { p4est_quadrant_t *x = p4est_quadrant_array_index (rq, zz); sb_sep (&cb); put_quad (&cb, x->p.piggy3.which_tree, x); }
        sb_printf (&cb, "]]");
        /* the other lists are optional */
        if (p4est_quadrant_exists (f, gh, t, &n, ea, NULL, NULL) != ex) sb_printf (&cb, ",[\"z\"]");
        sc_array_destroy (ea); sc_array_destroy (rp); sc_array_destroy (rq);
      }
      else if (f->local_num_quadrants > 0) {
        int face = (int) (h / 16 % P4EST_FACES), var = (int) (h / 3 % 3), hang = -1, hin = -1, own = -9, fo = face, fos, ex, fnd;
        p4est_locidx_t r;
        sc_array_t *exists_arr, *rp, *rq;
        q = drv_local (f, (p4est_locidx_t) (h / 1000 % f->local_num_quadrants), &t);
        if (var == 1 && q->level < P4EST_QMAXLEVEL) {   /* half size neighbour */
          int cc;
          for (cc = (int) (h / 64 % P4EST_CHILDREN); ((cc >> (face / 2)) & 1) != (face & 1); cc = (cc + 1) % P4EST_CHILDREN);
          qchild (q, cc, &c);
          fneigh (&c, face, &n);
        }
        else if (var == 2 && q->level > 0 && ((qcid (q) >> (face / 2)) & 1) == (face & 1)) {
          qparent (q, &c);
          fneigh (&c, face, &n);
          hang = hin = qcid (q);
        }
        else fneigh (q, face, &n);
        n.p.user_data = NULL;
        fnd = p4est_quadrant_find_owner (f, t, h / 512 % 2 ? face : -1, &n);
        r = p4est_face_quadrant_exists (f, gh, t, &n, &fo, hin >= 0 ? &hang : NULL, &own);
        fos = fo;
        exists_arr = sc_array_new (sizeof (int)); rp = sc_array_new (sizeof (int)); rq = sc_array_new (sizeof (p4est_quadrant_t));
        ex = p4est_quadrant_exists (f, gh, t, &n, exists_arr, h / 1024 % 2 ? rp : NULL, rq);
        sb_sep (&cb); sb_printf (&cb, "[\"f\","); put_quad (&cb, t, &n);
        sb_printf (&cb, ",%d,%d,%d,%d,%d,%d,%d,%d,[", face, hin, (int) r, fos, hang, own, ex ? 1 : 0, fnd);
        if (rq->elem_count == 1) { p4est_quadrant_t *x = p4est_quadrant_array_index (rq, 0); put_quad (&cb, x->p.piggy3.which_tree, x); }
        sb_printf (&cb, "]]");
        sc_array_destroy (exists_arr); sc_array_destroy (rp); sc_array_destroy (rq);
      }
    }
    preint ("g", g); preint ("s", GH[g].fslot);
    sb_sep (&loc); sb_printf (&loc, "\"cb\":[%.*s]", (int) cb.n, cb.s);
    emit ("gquery");
    return 1;
  }
  if (!strcmp (k, "gexch")) {
    /* data not written: every byte is 0xee; data sent may look the same */
#define XGET(p, n) (x_untouched ((const char *) (p), n) ? -2 : bytes_get (p, n))
    int g = toki (), mode = toki (), dsz = toki (), minl = toki (), maxl = toki (), split = toki (), two;
    p4est_ghost_t *gh = drv_ghost (g);
    p4est_t *f = drv_forest (GH[g].fslot);
    size_t n = gh->ghosts.elem_count, nm = gh->mirrors.elem_count, zz, sz;
    char *gd[2], *md[2];
    void **mp[2];
    int *mv[2], b;
    p4est_ghost_exchange_t *ex[2];
    two = split == 2;
    sz = mode == 0 ? (f->data_size ? f->data_size : sizeof (void *)) : (size_t) dsz;
    for (b = 0; b < 2; ++b) {
      gd[b] = (char *) malloc (sz * n + 1); memset (gd[b], 0xee, sz * n + 1);
      md[b] = (char *) malloc (sz * nm + 1);
      mp[b] = (void **) malloc (sizeof (void *) * (nm + 1));
      mv[b] = (int *) calloc (nm + 1, sizeof (int));
      for (zz = 0; zz < nm; ++zz) {
        p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->mirrors, zz), *lq;
        p4est_topidx_t t;
        if (mode == 0) {
          lq = drv_local (f, q->p.piggy3.local_num, &t);
          if (f->data_size == 0) {
            if (b == 0) { int id = new_id (); bytes_fill (&lq->p.user_data, sizeof (void *), id); }
            mv[b][zz] = XGET (&lq->p.user_data, sizeof (void *));
          }
          else mv[b][zz] = XGET (lq->p.user_data, f->data_size);
        }
        else {
          int id = new_id ();
          bytes_fill (md[b] + zz * sz, sz, id);
          mp[b][zz] = md[b] + zz * sz;
          mv[b][zz] = XGET (md[b] + zz * sz, sz);
          /* memory outside the level range must not be read */
          if (mode == 2 && (q->level < minl || q->level > maxl)) mp[b][zz] = NULL;
        }
      }
    }
    for (b = 0; b <= two; ++b) {
      if (!split) {
        if (mode == 0) p4est_ghost_exchange_data (f, gh, gd[b]);
        else if (mode == 1) p4est_ghost_exchange_custom (f, gh, sz, mp[b], gd[b]);
        else p4est_ghost_exchange_custom_levels (f, gh, minl, maxl, sz, mp[b], gd[b]);
      }
      else {
        if (mode == 0) ex[b] = p4est_ghost_exchange_data_begin (f, gh, gd[b]);
        else if (mode == 1) ex[b] = p4est_ghost_exchange_custom_begin (f, gh, sz, mp[b], gd[b]);
        else ex[b] = p4est_ghost_exchange_custom_levels_begin (f, gh, minl, maxl, sz, mp[b], gd[b]);
        if (mode > 0) { memset (md[b], 0x11, sz * nm + 1); memset (mp[b], 0, sizeof (void *) * (nm + 1)); }
      }
    }
    if (split)
      for (b = two; b >= 0; --b) {
        if (mode == 0) p4est_ghost_exchange_data_end (ex[b]);
        else if (mode == 1) p4est_ghost_exchange_custom_end (ex[b]);
        else p4est_ghost_exchange_custom_levels_end (ex[b]);
      }
    preint ("g", g); preint ("mode", mode); preint ("minl", mode == 2 ? minl : 0); preint ("maxl", mode == 2 ? maxl : P4EST_QMAXLEVEL);
    for (b = 0; b <= 1; ++b) {
      sb_sep (&loc); sb_printf (&loc, "\"mv%d\":[", b);
      for (zz = 0; b <= two && zz < nm; ++zz) { sb_sep (&loc); sb_printf (&loc, "%d", mv[b][zz]); }
      sb_printf (&loc, "],\"gv%d\":[", b);
      for (zz = 0; b <= two && zz < n; ++zz) {
        sb_sep (&loc); sb_printf (&loc, "%d", XGET (gd[b] + zz * sz, sz));
      }
      sb_printf (&loc, "]");
      locint (b ? "ov1" : "ov0", (unsigned char) gd[b][sz * n] == 0xee);
      free (gd[b]); free (md[b]); free (mp[b]); free (mv[b]);
    }
    preint ("two", two);
    emit ("gexch");
    return 1;
  }
  return 0;
}

int op_struct (const char *k)
{ return op_ghost (k) || op_iter (k) || op_nodes (k) || op_mesh (k); }
