/* p4est_mesh */
#include "drv.h"

static void put_arr (const char *n, sc_array_t *a, int per)
{
  size_t z; int j;
  sb_sep (&loc); sb_printf (&loc, "\"%s\":[", n);
  for (z = 0; a != NULL && z < a->elem_count; ++z)
    for (j = 0; j < per; ++j) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) ((p4est_locidx_t *) sc_array_index (a, z))[j]); }
  sb_printf (&loc, "]");
}
static void put_arr8 (const char *n, const int8_t *a, size_t c)
{
  size_t z;
  sb_sep (&loc); sb_printf (&loc, "\"%s\":[", n);
  for (z = 0; a != NULL && z < c; ++z) { sb_sep (&loc); sb_printf (&loc, "%d", (int) a[z]); }
  sb_printf (&loc, "]");
}

void emit_mesh (p4est_t *f, p4est_ghost_t *gh, p4est_mesh_t *m, int s, int g, int kind, int flags, const char *rec)
{
  int i, j, nf, nr;
  p4est_locidx_t n, nq, tq;
  p4est_topidx_t t, nt;
  p4est_quadrant_t *q, *q2;
  char *gd = P4EST_ALLOC_ZERO (char, gh->ghosts.elem_count * f->data_size + 1);
    if (f->data_size > 0) p4est_ghost_exchange_data (f, gh, gd);
    n = m->local_num_quadrants;
    preint ("s", s); preint ("g", g); preint ("kind", kind); preint ("x", flags);
    locint ("n", n); locint ("ng", m->ghost_num_quadrants);
    loclist ("qtt", m->quad_to_tree, m->quad_to_tree ? n : 0);
    loclist ("g2p", (p4est_locidx_t *) m->ghost_to_proc, m->ghost_num_quadrants);
    loclist ("qtq", m->quad_to_quad, P4EST_FACES * n);
    put_arr8 ("qtf", m->quad_to_face, P4EST_FACES * n);
    put_arr ("qth", m->quad_to_half, P4EST_HALF);
    sb_sep (&loc); sb_printf (&loc, "\"lev\":[");
    for (i = 0; m->quad_level != NULL && i <= P4EST_QMAXLEVEL; ++i) {
      size_t z;
      sb_sep (&loc); sb_printf (&loc, "[");
      for (z = 0; z < m->quad_level[i].elem_count; ++z) { sb_sep (&loc); sb_printf (&loc, "%ld", (long) *(p4est_locidx_t *) sc_array_index (m->quad_level + i, z)); }
      sb_printf (&loc, "]");
    }
    sb_printf (&loc, "]");
#ifdef P4_TO_P8
    loclist ("qte", m->quad_to_edge, m->quad_to_edge ? P8EST_EDGES * n : 0);
    put_arr ("eo", m->edge_offset, 1); put_arr ("eq", m->edge_quad, 1);
    put_arr8 ("ee", m->edge_edge ? (int8_t *) m->edge_edge->array : NULL, m->edge_edge ? m->edge_edge->elem_count : 0);
    locint ("lne", m->local_num_edges);
#endif
    loclist ("qtc", m->quad_to_corner, m->quad_to_corner ? P4EST_CHILDREN * n : 0);
    put_arr ("co", m->corner_offset, 1); put_arr ("cq", m->corner_quad, 1);
    put_arr8 ("cc", m->corner_corner ? (int8_t *) m->corner_corner->array : NULL, m->corner_corner ? m->corner_corner->elem_count : 0);
    locint ("lnc", m->local_num_corners);
    locint ("mem", p4est_mesh_memory_used (m) > 0);
    /* the face neighbor iterator: [tree, number, code, rank, quadrant, data] */
    sb_sep (&loc); sb_printf (&loc, "\"fn\":[");
    for (t = f->first_local_tree; t <= f->last_local_tree; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
      for (i = 0; i < (int) tr->quadrants.elem_count; ++i) {
        p4est_mesh_face_neighbor_t mf;
        q = p4est_quadrant_array_index (&tr->quadrants, i);
        if (i & 1) p4est_mesh_face_neighbor_init (&mf, f, gh, m, t, q);
        else p4est_mesh_face_neighbor_init2 (&mf, f, gh, m, t, i);
        sb_sep (&loc); sb_printf (&loc, "[");
        for (;;) {
          nt = -7; nq = -7; nf = -7; nr = -7;
          q2 = p4est_mesh_face_neighbor_next (&mf, &nt, &nq, &nf, &nr);
          if (q2 == NULL) break;
          sb_sep (&loc); sb_printf (&loc, "[%d,%d,%d,%d,", (int) nt, (int) nq, nf, nr);
          put_quad (&loc, nt, q2);
          sb_printf (&loc, ",%d]", f->data_size > 0 ? bytes_get (p4est_mesh_face_neighbor_data (&mf, gd), f->data_size) : 0);
        }
        sb_printf (&loc, "]");
      }
    }
    sb_printf (&loc, "],\"cu\":[");
    /* lookup by cumulative number */
    for (i = 0; i < n; ++i) {
      t = (i % 3) ? -1 : f->first_local_tree + i % (f->last_local_tree - f->first_local_tree + 1);
      tq = -7;
      q = p4est_mesh_quadrant_cumulative (f, m, i, &t, &tq);
      sb_sep (&loc); sb_printf (&loc, "[%d,%d,", (int) t, (int) tq);
      put_quad (&loc, t, q); sb_printf (&loc, "]");
    }
    sb_printf (&loc, "],\"nb\":[");
    if (flags & 16) {
      int nd = P4EST_FACES, z, dim;
#ifdef P4_TO_P8
      if (kind >= 2) nd += P8EST_EDGES;
#endif
      if (kind >= P4EST_DIM) nd += P4EST_CHILDREN;
      dim = nd;
      for (i = 0; i < n; ++i) {
        sb_sep (&loc); sb_printf (&loc, "[");
        for (j = 0; j < dim; ++j) {
          sc_array_t *aq = (flags & 1) ? sc_array_new (sizeof (p4est_quadrant_t *)) : NULL;
          sc_array_t *ae = sc_array_new (sizeof (int)), *ai = sc_array_new (sizeof (int));
          p4est_mesh_get_neighbors (f, gh, m, i, j, aq, ae, ai);
          sb_sep (&loc); sb_printf (&loc, "[");
          for (z = 0; z < (int) ai->elem_count; ++z) {
            int id = *(int *) sc_array_index (ai, z), en = z < (int) ae->elem_count ? *(int *) sc_array_index (ae, z) : 0;
            sb_sep (&loc); sb_printf (&loc, "[%d,%d,", id, en);
            if (aq) {
              q = *(p4est_quadrant_t **) sc_array_index (aq, z);
              t = en < 0 ? q->p.piggy3.which_tree : m->quad_to_tree[id];
              put_quad (&loc, t, q);
            } else sb_printf (&loc, "[]");
            sb_printf (&loc, "]");
          }
          sb_printf (&loc, "]");
          sc_array_destroy (ae); sc_array_destroy (ai); if (aq) sc_array_destroy (aq);
        }
        sb_printf (&loc, "]");
      }
    }
    sb_printf (&loc, "]");
    P4EST_FREE (gd);
    emit (rec);
}

int op_mesh (const char *k)
{
  if (strcmp (k, "mesh")) return 0;
  {
    /* mesh s g kind flags: 1 tree index, 2 level lists, 4 corners across
     * hanging edges, 8 p4est_mesh_new or _ext, 16 neighbor queries */
    int s = toki (), g = toki (), kind = toki (), flags = toki ();
    p4est_t *f = drv_forest (s);
    p4est_ghost_t *gh = drv_ghost (g);
    p4est_mesh_params_t pa;
    p4est_mesh_t *m;
    p4est_mesh_params_init (&pa);
    pa.btype = drv_btype (kind);
    pa.compute_tree_index = flags & 1;
    pa.compute_level_lists = (flags & 2) ? 1 : 0;
#ifdef P4_TO_P8
    pa.edgehanging_corners = (flags & 4) ? 1 : 0;
#endif
    if (flags & 8) m = (flags & 3) ? p4est_mesh_new_ext (f, gh, flags & 1, flags & 2, pa.btype) : p4est_mesh_new (f, gh, pa.btype);
    else m = p4est_mesh_new_params (f, gh, &pa);
    emit_mesh (f, gh, m, s, g, kind, flags, "mesh");
    p4est_mesh_destroy (m);
    return 1;
  }
}
