/* iteration over volumes, faces, edges and corners */
#include "drv.h"

typedef struct { p4est_t *f; p4est_ghost_t *g; int nulls, badptr; } itctx_t;

/* [is_ghost, quadrant or [], number] and check the pointer against the number */
static void put_ref (itctx_t *x, p4est_topidx_t t, int isg, p4est_quadrant_t *q, p4est_locidx_t id)
{
  p4est_quadrant_t *w = NULL;
  sb_sep (&cb); sb_printf (&cb, "[%d,", isg ? 1 : 0);
  if (q == NULL) sb_printf (&cb, "[]"); else put_quad (&cb, t, q);
  sb_printf (&cb, ",%d]", (int) id);
  if (q == NULL) { if (!isg || id != -1) x->badptr = 1; return; }
  if (isg) {
    if (x->g == NULL || id < 0 || (size_t) id >= x->g->ghosts.elem_count) { x->badptr = 1; return; }
    w = p4est_quadrant_array_index (&x->g->ghosts, (size_t) id);
  }
  else {
    p4est_tree_t *tr = p4est_tree_array_index (x->f->trees, t);
    if (id < 0 || (size_t) id >= tr->quadrants.elem_count) { x->badptr = 1; return; }
    w = p4est_quadrant_array_index (&tr->quadrants, (size_t) id);
  }
  if (w != q) x->badptr = 1;
}
static void chk (itctx_t *x, p4est_t *f, p4est_ghost_t *g)
{ if (f != x->f || (x->g != NULL && g != x->g)) x->badptr = 1; }

static void it_vol (p4est_iter_volume_info_t *i, void *u)
{
  itctx_t *x = (itctx_t *) u;
  chk (x, i->p4est, i->ghost_layer);
  sb_sep (&cb); sb_printf (&cb, "[\"v\","); put_quad (&cb, i->treeid, i->quad); sb_printf (&cb, ",%d]", (int) i->quadid);
}
static void it_face (p4est_iter_face_info_t *i, void *u)
{
  itctx_t *x = (itctx_t *) u;
  size_t z; int k;
  chk (x, i->p4est, i->ghost_layer);
  sb_sep (&cb); sb_printf (&cb, "[\"f\",%d,%d,[", (int) i->orientation, (int) i->tree_boundary);
  for (z = 0; z < i->sides.elem_count; ++z) {
    p4est_iter_face_side_t *s = p4est_iter_fside_array_index (&i->sides, z);
    sb_sep (&cb); sb_printf (&cb, "[%d,%d,%d,[", (int) s->treeid, (int) s->face, (int) s->is_hanging);
    if (!s->is_hanging) put_ref (x, s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid);
    else for (k = 0; k < P4EST_HALF; ++k)
      put_ref (x, s->treeid, s->is.hanging.is_ghost[k], s->is.hanging.quad[k], s->is.hanging.quadid[k]);
    sb_printf (&cb, "]]");
  }
  sb_printf (&cb, "]]");
}
#ifdef P4_TO_P8
static void it_edge (p8est_iter_edge_info_t *i, void *u)
{
  itctx_t *x = (itctx_t *) u;
  size_t z; int k;
  chk (x, i->p4est, i->ghost_layer);
  sb_sep (&cb); sb_printf (&cb, "[\"e\",%d,[", (int) i->tree_boundary);
  for (z = 0; z < i->sides.elem_count; ++z) {
    p8est_iter_edge_side_t *s = p8est_iter_eside_array_index (&i->sides, z);
    sb_sep (&cb); sb_printf (&cb, "[%d,%d,%d,[", (int) s->treeid, (int) s->edge, (int) s->is_hanging);
    if (!s->is_hanging) put_ref (x, s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid);
    else for (k = 0; k < 2; ++k)
      put_ref (x, s->treeid, s->is.hanging.is_ghost[k], s->is.hanging.quad[k], s->is.hanging.quadid[k]);
    sb_printf (&cb, "],%d,%d,%d]", (int) s->orientation, (int) s->faces[0], (int) s->faces[1]);
  }
  sb_printf (&cb, "]]");
}
#endif
static void it_corner (p4est_iter_corner_info_t *i, void *u)
{
  itctx_t *x = (itctx_t *) u;
  size_t z;
  chk (x, i->p4est, i->ghost_layer);
  sb_sep (&cb); sb_printf (&cb, "[\"c\",%d,[", (int) i->tree_boundary);
  for (z = 0; z < i->sides.elem_count; ++z) {
    p4est_iter_corner_side_t *s = p4est_iter_cside_array_index (&i->sides, z);
    sb_sep (&cb); sb_printf (&cb, "[%d,%d,0,[", (int) s->treeid, (int) s->corner);
    put_ref (x, s->treeid, s->is_ghost, s->quad, s->quadid);
    sb_printf (&cb, "]]");
  }
  sb_printf (&cb, "]]");
}

int op_iter (const char *k)
{
  if (!strcmp (k, "iter")) {
    /* iter s g mask remote; mask: 1 volume 2 face 4 edge 8 corner */
    int s = toki (), g = toki (), m = toki (), remote = toki ();
    itctx_t x;
    memset (&x, 0, sizeof (x));
    x.f = drv_forest (s);
    x.g = g < 0 ? NULL : drv_ghost (g);
    sb_reset (&cb);
#ifdef P4_TO_P8
    if (remote == 2) p8est_iterate (x.f, x.g, &x, m & 1 ? it_vol : NULL, m & 2 ? it_face : NULL, m & 4 ? it_edge : NULL, m & 8 ? it_corner : NULL);
    else p8est_iterate_ext (x.f, x.g, &x, m & 1 ? it_vol : NULL, m & 2 ? it_face : NULL, m & 4 ? it_edge : NULL, m & 8 ? it_corner : NULL, remote);
#else
    m &= ~4;
    if (remote == 2) p4est_iterate (x.f, x.g, &x, m & 1 ? it_vol : NULL, m & 2 ? it_face : NULL, m & 8 ? it_corner : NULL);
    else p4est_iterate_ext (x.f, x.g, &x, m & 1 ? it_vol : NULL, m & 2 ? it_face : NULL, m & 8 ? it_corner : NULL, remote);
#endif
    preint ("s", s); preint ("g", g); preint ("m", m); preint ("rem", remote == 1);
    locint ("bad", x.badptr);
    sb_sep (&loc); sb_printf (&loc, "\"cb\":[%.*s]", (int) cb.n, cb.s);
    emit ("iter");
    return 1;
  }
  return 0;
}
