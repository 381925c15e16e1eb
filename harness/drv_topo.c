/* connectivities: tables made by the library (C20) and transformations
 * between trees (C21) */
#include "drv.h"
#include <math.h>
#ifdef P4_TO_P8
#include <p8est_tets_hexes.h>
#endif

typedef p4est_quadrant_t Q;
typedef p4est_qcoord_t qc_t;
p4est_connectivity_t *conn_copy2 (p4est_connectivity_t *c);
int conn_hash (p4est_connectivity_t *c);

static sbuf s_in, s_i, s_o, s_r;
static const char *cname;
static void begin (const char *n) { cname = n; sb_reset (&s_in); sb_reset (&s_i); sb_reset (&s_o); sb_reset (&s_r); }
static void qi (int t, const Q *q) { put_quad (&s_in, t, q); }
static void qo (int t, const Q *q) { put_quad (&s_o, t, q); }
static void ii (int v) { sb_sep (&s_i); sb_printf (&s_i, "%d", v); }
static void ri (int v) { sb_sep (&s_r); sb_printf (&s_r, "%d", v); }
static void end (void)
{
  sb_sep (&pre);
  sb_printf (&pre, "[\"%s\",[%.*s],[%.*s],[%.*s],[%.*s]]", cname, (int) s_in.n, s_in.s ? s_in.s : "", (int) s_i.n, s_i.s ? s_i.s : "",
             (int) s_o.n, s_o.s ? s_o.s : "", (int) s_r.n, s_r.s ? s_r.s : "");
}
static int rn (int n) { return (int) ((rnd () >> 20) % (uint64_t) n); }
static qc_t *cp (Q *q, int a) { return a == 0 ? &q->x : a == 1 ? &q->y :
#ifdef P4_TO_P8
  &q->z;
#else
  &q->y;
#endif
}
static void pt (Q *q, const qc_t c[]) { int a; memset (q, 0, sizeof *q); q->level = P4EST_MAXLEVEL; for (a = 0; a < P4EST_DIM; ++a) *cp (q, a) = c[a]; }
static qc_t rco (qc_t h)        /* aligned, often at the ends */
{
  int m = rn (5);
  if (m == 0) return 0;
  if (m == 1) return P4EST_ROOT_LEN - h;
  return (qc_t) ((uint32_t) rnd () & (P4EST_ROOT_LEN - 1) & ~((uint32_t) h - 1));
}
static int rlevel (void) { return rn (3) ? rn (5) : rn (P4EST_QMAXLEVEL + 1); }
/* box of level l in the tree at the given sides (axis -> 0, 1, or 2 any) */
static void box (Q *q, int l, const int sd[])
{
  int a; qc_t h = P4EST_QUADRANT_LEN (l);
  memset (q, 0, sizeof *q); q->level = (int8_t) l;
  for (a = 0; a < P4EST_DIM; ++a) *cp (q, a) = sd[a] == 0 ? 0 : sd[a] == 1 ? P4EST_ROOT_LEN - h : rco (h);
}
static void out (Q *q, const int sd[])
{ int a; for (a = 0; a < P4EST_DIM; ++a) if (sd[a] < 2) *cp (q, a) += (sd[a] ? 1 : -1) * P4EST_QUADRANT_LEN (q->level); }
static void point_at (Q *q, const int sd[])
{
  int a; qc_t c[3];
  for (a = 0; a < P4EST_DIM; ++a) c[a] = sd[a] == 0 ? 0 : sd[a] == 1 ? P4EST_ROOT_LEN : rn (6) == 0 ? P4EST_ROOT_LEN * rn (2) : rn (2) ? P4EST_ROOT_LEN / 4 * (1 + rn (3)) : (qc_t) ((uint32_t) rnd () & (P4EST_ROOT_LEN - 1));
  pt (q, c);
}
static void sides_face (int f, int sd[]) { int a; for (a = 0; a < P4EST_DIM; ++a) sd[a] = a == f / 2 ? f % 2 : 2; }
static void sides_corner (int k, int sd[]) { int a; for (a = 0; a < P4EST_DIM; ++a) sd[a] = (k >> a) & 1; }
#ifdef P4_TO_P8
static void sides_edge (int e, int sd[]) { int a, x = e / 4, n = e % 4; for (a = 0; a < 3; ++a) if (a == x) sd[a] = 2; else { sd[a] = n & 1; n >>= 1; } }
#endif
static void coords (const Q *q, qc_t c[]) { int a; Q s = *q; for (a = 0; a < P4EST_DIM; ++a) c[a] = *cp (&s, a); }

static void xone (p4est_connectivity_t *c)
{
  int t = rn ((int) c->num_trees), f, k, i, ft[9], sd[3], inside, nt, l = rlevel (), kind;
  Q q, r, p;
  qc_t ci[3], cx[3];
  kind = rn (13);
  if (kind < 2) {               /* face transformation */
    f = rn (P4EST_FACES);
    begin ("xface"); sides_face (f, sd);
    if (rn (4) == 0) l = P4EST_MAXLEVEL;
    if (l == P4EST_MAXLEVEL) point_at (&q, sd);
    else {
      box (&q, l, sd); i = rn (4);
      if (i > 0) out (&q, sd);
      if (i > 1 && l > 1) { int m = rn (16); while (m-- > 0 && *cp (&q, f / 2) > -P4EST_ROOT_LEN / 2 && *cp (&q, f / 2) < P4EST_ROOT_LEN + P4EST_ROOT_LEN / 4) out (&q, sd); }
      if (i > 2) { i = rn (P4EST_DIM); if (i != f / 2) { int s3[3] = { 2, 2, 2 }; s3[i] = rn (2); *cp (&q, i) = s3[i] ? P4EST_ROOT_LEN - P4EST_QUADRANT_LEN (l) : 0; out (&q, s3); } }
    }
    qi (t, &q); ii (f);
    if (rn (2)) {
      nt = p4est_find_face_transform (c, t, f, ft); ri (nt);
      if (nt >= 0) { int a; p4est_expand_face_transform (f, c->tree_to_face[P4EST_FACES * t + f], ft); for (a = 0; a < 0; ++a) {} }
    }
    else { nt = p4est_find_face_transform (c, t, f, ft); ri (nt); }
    if (nt >= 0) {
      p4est_quadrant_transform_face (&q, &r, ft); qo (nt, &r);
      sides_face (f, sd); point_at (&p, sd); if (rn (3) == 0) *cp (&p, f / 2) += (f % 2 ? 1 : -1) * (rn (1000));
      qi (t, &p); coords (&p, ci); p4est_coordinates_transform_face (ci, cx, ft); pt (&r, cx); qo (nt, &r);
    }
    end ();
  }
#ifdef P4_TO_P8
  else if (kind < 4) {          /* edge transformation */
    p8est_edge_info_t ei; int e = rn (12); size_t z;
    begin ("xedge"); sides_edge (e, sd); inside = rn (2);
    box (&q, l, sd); if (inside) out (&q, sd);
    point_at (&p, sd); coords (&p, ci);
    qi (t, &q); qi (t, &p); ii (e); ii (inside);
    sc_array_init (&ei.edge_transforms, sizeof (p8est_edge_transform_t));
    p8est_find_edge_transform (c, t, e, &ei);
    for (z = 0; z < ei.edge_transforms.elem_count; ++z) {
      p8est_edge_transform_t *et = p8est_edge_array_index (&ei.edge_transforms, z);
      p8est_quadrant_transform_edge (&q, &r, &ei, et, inside); qo (et->ntree, &r);
      p8est_coordinates_transform_edge (ci, cx, &ei, et); pt (&r, cx); qo (et->ntree, &r);
      ri (et->ntree); ri (et->nedge); ri (et->nflip); ri (et->corners); ri (et->naxis[0]); ri (et->naxis[1]); ri (et->naxis[2]);
    }
    sc_array_reset (&ei.edge_transforms); end ();
  }
#endif
  else if (kind < 5) {          /* corner transformation */
    p4est_corner_info_t xi; size_t z;
    k = rn (P4EST_CHILDREN);
    begin ("xcorner"); sides_corner (k, sd); inside = rn (2);
    box (&q, l, sd); if (inside) out (&q, sd);
    point_at (&p, sd); coords (&p, ci);
    qi (t, &q); ii (k); ii (inside);
    sc_array_init (&xi.corner_transforms, sizeof (p4est_corner_transform_t));
    p4est_find_corner_transform (c, t, k, &xi);
    for (z = 0; z < xi.corner_transforms.elem_count; ++z) {
      p4est_corner_transform_t *ct = p4est_corner_array_index (&xi.corner_transforms, z);
      r = q; p4est_quadrant_transform_corner (&r, ct->ncorner, inside); qo (ct->ntree, &r);
      memcpy (cx, ci, sizeof cx); p4est_coordinates_transform_corner (cx, ct->ncorner); pt (&r, cx); qo (ct->ntree, &r);
      ri (ct->ntree); ri (ct->ncorner);
    }
    sc_array_reset (&xi.corner_transforms); end ();
  }
  else if (kind < 7) {          /* generic neighbour transformations of an object */
    sc_array_t *a = sc_array_new (sizeof (p4est_neighbor_transform_t)); size_t z;
    int ty = rn (P4EST_DIM + 1), ix;
    p4est_connect_type_t bt;
    begin ("nbtr");
    if (ty == 0) { ix = 0; bt = P4EST_CONNECT_SELF; sd[0] = sd[1] = sd[2] = 2; }
    else if (ty == 1) { ix = rn (P4EST_FACES); bt = P4EST_CONNECT_FACE; sides_face (ix, sd); }
    else if (ty == P4EST_DIM) { ix = rn (P4EST_CHILDREN); bt = P4EST_CONNECT_CORNER; sides_corner (ix, sd); }
    else {
#ifdef P4_TO_P8
      ix = rn (12); bt = P8EST_CONNECT_EDGE; sides_edge (ix, sd);
#else
      ix = 0; bt = P4EST_CONNECT_SELF;
#endif
    }
    ii (ty); ii (ix);
    point_at (&p, sd); coords (&p, ci); qi (t, &p);
    box (&q, l, sd); qi (t, &q); r = q; out (&r, sd); qi (t, &r);
    p4est_connectivity_get_neighbor_transforms (c, t, bt, ix, a);
    for (z = 0; z < a->elem_count; ++z) {
      p4est_neighbor_transform_t *n = (p4est_neighbor_transform_t *) sc_array_index (a, z);
      Q u, v; qc_t cb2[3];
      ri (n->neighbor_type == P4EST_CONNECT_SELF ? 0 : n->neighbor_type == P4EST_CONNECT_FACE ? 1 : n->neighbor_type == P4EST_CONNECT_CORNER ? P4EST_DIM : 2);
      ri (n->neighbor); ri (n->index_self); ri (n->index_neighbor);
      p4est_neighbor_transform_coordinates (n, ci, cx); pt (&u, cx); qo (n->neighbor, &u);
      p4est_neighbor_transform_coordinates_reverse (n, cx, cb2); pt (&v, cb2); qo (t, &v);
      u = q; p4est_neighbor_transform_quadrant (n, &q, &u); qo (n->neighbor, &u);
      v = q; p4est_neighbor_transform_quadrant_reverse (n, &u, &v); qo (t, &v);
      u = r; p4est_neighbor_transform_quadrant (n, &r, &u); qo (n->neighbor, &u);
      v = r; p4est_neighbor_transform_quadrant_reverse (n, &u, &v); qo (t, &v);
    }
    sc_array_destroy (a); end ();
  }
  else if (kind < 9) {          /* canonical representation of a point */
    p4est_topidx_t to = -5;
    begin ("canon");
    for (i = 0; i < P4EST_DIM; ++i) sd[i] = rn (3);
    point_at (&p, sd); coords (&p, ci); qi (t, &p);
    p4est_connectivity_coordinates_canonicalize (c, t, ci, &to, cx); pt (&r, cx); qo ((int) to, &r);
    end ();
  }
  else if (kind < 10) {         /* numbers across faces and edges */
    int nf, o, fc;
    begin ("numbers");
    f = rn (P4EST_FACES); nf = rn (P4EST_FACES); o = rn (P4EST_HALF); fc = rn (P4EST_HALF);
    k = p4est_face_corners[f][fc];
    ii (f); ii (nf); ii (o); ii (fc);
    ri (p4est_connectivity_face_neighbor_face_corner (fc, f, nf, o)); ri (p4est_connectivity_face_neighbor_corner (k, f, nf, o));
#ifdef P4_TO_P8
    { int fe = rn (4), e = p8est_face_edges[f][fe], ne = rn (12), eo = rn (2), ec = rn (2), g = rn (12);
      ii (fe); ii (g); ii (ne); ii (eo); ii (ec);
      ri (p8est_connectivity_face_neighbor_corner_set (k, f, nf, p8est_face_permutation_sets[p8est_face_permutation_refs[f][nf]][o]));
      ri (p8est_connectivity_face_neighbor_face_edge (fe, f, nf, o)); ri (e); ri (p8est_connectivity_face_neighbor_edge (e, f, nf, o));
      ri (p8est_connectivity_edge_neighbor_edge_corner (ec, eo)); ri (p8est_connectivity_edge_neighbor_corner (p8est_edge_corners[g][ec], g, ne, eo)); }
#endif
    p4est_expand_face_transform (f, nf + P4EST_FACES * o, ft);
    sides_face (f, sd); box (&q, l, sd); if (rn (2)) out (&q, sd);
    p4est_quadrant_transform_face (&q, &r, ft); qi (0, &q); qo (0, &r);
    end ();
  }
  else {                        /* neighbours of a quadrant over tree boundaries */
    sc_array_t *qs, *ts, *ns; size_t z; int nface = -7;
    for (i = 0; i < P4EST_DIM; ++i) sd[i] = rn (3);
    box (&q, l, sd);
    if (kind == 10) {
      f = rn (P4EST_FACES); begin ("fnextra"); qi (t, &q); ii (f);
      memset (&r, 0, sizeof r);
      if (rn (2)) { nt = p4est_quadrant_face_neighbor_extra (&q, t, f, &r, rn (3) ? &nface : NULL, c); }
      else { r = q; nt = p4est_quadrant_face_neighbor_extra (&r, t, f, &r, &nface, c); }
      qo (nt, &r); ri (nface); end ();
      return;
    }
    qs = sc_array_new (sizeof (Q)); ts = sc_array_new (sizeof (p4est_topidx_t)); ns = sc_array_new (sizeof (int));
    if (rn (4) == 0) { sc_array_destroy (ns); ns = NULL; }
#ifdef P4_TO_P8
    if (kind == 11) { int e = rn (12); begin ("enextra"); qi (t, &q); ii (e); p8est_quadrant_edge_neighbor_extra (&q, t, e, qs, ts, ns, c); }
    else
#endif
    { k = rn (P4EST_CHILDREN); begin ("cnextra"); qi (t, &q); ii (k); p4est_quadrant_corner_neighbor_extra (&q, t, k, qs, ts, ns, c); }
    for (z = 0; z < qs->elem_count; ++z) qo ((int) *(p4est_topidx_t *) sc_array_index (ts, z), (Q *) sc_array_index (qs, z));
    if (ns) { ri (1); for (z = 0; z < ns->elem_count; ++z) ri (*(int *) sc_array_index (ns, z)); } else ri (0);
    ii (ts->elem_count == qs->elem_count && (!ns || ns->elem_count == qs->elem_count));
    sc_array_destroy (qs); sc_array_destroy (ts); if (ns) sc_array_destroy (ns);
    end ();
  }
}

/* vertex coordinates times scale when these are integers, else nothing */
static int put_vx (const char *name, p4est_connectivity_t *c, double scale)
{
  int i, ok = c->num_vertices > 0;
  for (i = 0; ok && i < 3 * c->num_vertices; ++i) {
    double v = c->vertices[i] * scale, w = floor (v + .5);
    if (fabs (v - w) > 1e-9 || fabs (w) > 1e6) ok = 0;
  }
  sb_sep (&pre); sb_printf (&pre, "\"%s\":[", name);
  for (i = 0; ok && i < c->num_vertices; ++i) {
    sb_sep (&pre); sb_printf (&pre, "[%d,%d,%d]", (int) floor (c->vertices[3 * i] * scale + .5), (int) floor (c->vertices[3 * i + 1] * scale + .5), (int) floor (c->vertices[3 * i + 2] * scale + .5));
  }
  sb_printf (&pre, "]");
  return ok;
}
void put_topo (p4est_connectivity_t *c) { preint ("val", p4est_connectivity_is_valid (c)); put_vx ("vx", c, 1.); }

static void write_inp (FILE *fp, p4est_connectivity_t *c, int seed)
{
  int i, k, j, m = rn (4);
  static const int ord[8] = { 0, 1, 3, 2, 4, 5, 7, 6 };
  int *vp = (int *) malloc (sizeof (int) * c->num_vertices);
  (void) seed;
  for (i = 0; i < c->num_vertices; ++i) vp[i] = i;
  if (m & 1) for (i = (int) c->num_vertices - 1; i > 0; --i) { j = rn (i + 1); k = vp[i]; vp[i] = vp[j]; vp[j] = k; }
  fprintf (fp, "*Heading\n box.inp\n");
  if (m & 2) fprintf (fp, "** made by a driver\n*Preprint, echo=NO\n");
  fprintf (fp, rn (2) ? "*Node\n" : "*NODE, NSET=all\n");
  for (k = 0; k < c->num_vertices; ++k) { i = vp[k]; fprintf (fp, rn (2) ? "%d,  %g, %g, %g\n" : " %d, %.3f,%g,  %g\n", i + 1, c->vertices[3 * i], c->vertices[3 * i + 1], c->vertices[3 * i + 2]); }
  for (i = 0; i < c->num_trees; ++i) {
    if (i == 0 || rn (4) == 0)
      fprintf (fp, "*Element, type=%s, ELSET=Part%d\n", P4EST_DIM == 3 ? (rn (2) ? "C3D8" : "c3d8R") : (rn (3) == 0 ? "CPS4" : rn (2) ? "C2D4" : "S4R"), i);
    fprintf (fp, rn (2) ? "%d" : " %d", i + 1);
    for (k = 0; k < P4EST_CHILDREN; ++k) fprintf (fp, rn (2) ? ", %d" : ",   %d", (int) c->tree_to_vertex[P4EST_CHILDREN * i + ord[k]] + 1);
    fprintf (fp, "\n");
  }
  if (m & 2) fprintf (fp, "*End Part\n 1, 2, 3\n");
  free (vp);
}

/* do the vertices determine the topology? */
static int by_vertices (p4est_connectivity_t *c)
{
  int i, j, k, n = (int) c->num_trees * P4EST_FACES, ok = c->num_vertices > 0;
  p4est_topidx_t *v;
  if (!ok) return 0;
  v = (p4est_topidx_t *) malloc (sizeof (p4est_topidx_t) * n * P4EST_HALF);
  for (i = 0; i < n; ++i) {
    p4est_topidx_t *w = v + i * P4EST_HALF, x;
    for (k = 0; k < P4EST_HALF; ++k) w[k] = c->tree_to_vertex[P4EST_CHILDREN * (i / P4EST_FACES) + p4est_face_corners[i % P4EST_FACES][k]];
    for (k = 0; k < P4EST_HALF; ++k) for (j = k + 1; j < P4EST_HALF; ++j) if (w[j] < w[k]) { x = w[k]; w[k] = w[j]; w[j] = x; }
  }
  for (i = 0; i < c->num_trees; ++i)
    for (j = 0; j < P4EST_CHILDREN; ++j) for (k = 0; k < j; ++k)
      if (c->tree_to_vertex[P4EST_CHILDREN * i + j] == c->tree_to_vertex[P4EST_CHILDREN * i + k]) ok = 0;
  for (i = 0; ok && i < n; ++i) {
    int m = 0;
    for (j = 0; j < n; ++j) m += !memcmp (v + i * P4EST_HALF, v + j * P4EST_HALF, sizeof (p4est_topidx_t) * P4EST_HALF);
    if (m > 2) ok = 0;
  }
  free (v);
  return ok;
}

#ifdef P4_TO_P8
/* a random part of the subdivision of a grid of cubes into tetrahedra, with
 * nodes and corners in random order; coordinates are multiples of 12 */
typedef struct { int nn, nt, na; int *xyz, *tet, *attr; } tetmesh;
static long tet_det (const tetmesh *m, const int *t)
{
  long v[3][3]; int i, j;
  for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) v[i][j] = m->xyz[3 * t[i + 1] + j] - m->xyz[3 * t[0] + j];
  return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
}
static void tet_make (tetmesh *m, int maxt)
{
  static const int pm[6][3] = { {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0} };
  int d[3], i, j, k, n, x, *all, *cell, *new_, nall, jit, ph, *sg, crack = rn (5) == 0, base = rn (3) ? 0 : -60, used;
  for (i = 0; i < 3; ++i) d[i] = 1 + rn (i ? 2 : 3);
  n = (d[0] + 1) * (d[1] + 1) * (d[2] + 1);
  m->xyz = (int *) malloc (sizeof (int) * 3 * (n + 4 * 6 * 12));
  m->nn = n; nall = 6 * d[0] * d[1] * d[2];
  all = (int *) malloc (sizeof (int) * 4 * nall);
  for (i = 0; i < d[0] * d[1] * d[2]; ++i) for (j = 0; j < 6; ++j) {
    int c[3] = { i % d[0], i / d[0] % d[1], i / d[0] / d[1] };
    for (k = 0; k < 4; ++k) { all[4 * (6 * i + j) + k] = c[0] + (d[0] + 1) * (c[1] + (d[1] + 1) * c[2]); if (k < 3) ++c[pm[j][k]]; }
  }
  sg = (int *) calloc (nall, sizeof (int));
  for (ph = 0, jit = 0; ; ) {       /* first the regular grid, then perhaps moved */
    for (i = 0; i < n; ++i) {
      int c[3] = { i % (d[0] + 1), i / (d[0] + 1) % (d[1] + 1), i / (d[0] + 1) / (d[1] + 1) };
      for (k = 0; k < 3; ++k) m->xyz[3 * i + k] = base + 48 * c[k] + (jit ? 12 * (rn (3) - 1) : 0);
    }
    for (k = 0, i = 0; i < nall; ++i) {
      long v = tet_det (m, all + 4 * i);
      if (ph == 0) sg[i] = v > 0; else k += v == 0 || (v > 0) != sg[i];
    }
    if (ph == 2 || (ph == 1 && k == 0)) break;
    if (ph == 1) { jit = 0; ph = 2; } else if (rn (3)) { jit = 1; ph = 1; } else break;
  }
  free (sg);
  /* which ones */
  cell = (int *) malloc (sizeof (int) * nall);
  for (i = 0; i < nall; ++i) cell[i] = i;
  used = 1 + rn (nall < maxt ? nall : maxt);
  if (rn (2)) { x = rn (nall - used + 1); for (i = 0; i < used; ++i) cell[i] = x + i; }     /* neighbors */
  else for (i = nall - 1; i > 0; --i) { j = rn (i + 1); x = cell[i]; cell[i] = cell[j]; cell[j] = x; }
  for (i = used - 1; i > 0; --i) { j = rn (i + 1); x = cell[i]; cell[i] = cell[j]; cell[j] = x; }
  m->nt = used;
  m->tet = (int *) malloc (sizeof (int) * 4 * used); m->attr = (int *) malloc (sizeof (int) * used);
  for (i = 0; i < used; ++i) {
    for (k = 0; k < 4; ++k) m->tet[4 * i + k] = all[4 * cell[i] + k];
    for (k = 3; k > 0; --k) { j = rn (k + 1); x = m->tet[4 * i + k]; m->tet[4 * i + k] = m->tet[4 * i + j]; m->tet[4 * i + j] = x; }
    m->attr[i] = rn (3) ? rn (3) ? rn (255) - 127 : rn (2000) - 1000 : rn (4);
    if (crack && rn (3) == 0) {   /* another node at the same place */
      j = 4 * i + rn (4);
      for (k = 0; k < 3; ++k) m->xyz[3 * m->nn + k] = m->xyz[3 * m->tet[j] + k];
      m->tet[j] = m->nn++;
    }
  }
  m->na = rn (2);
  /* number the nodes: all or only those in use, in any order */
  n = m->nn; new_ = (int *) malloc (sizeof (int) * n);
  for (i = 0; i < n; ++i) new_[i] = rn (2) ? 0 : -1;
  if (rn (2)) for (i = 0; i < n; ++i) new_[i] = -1;
  for (i = 0; i < 4 * used; ++i) new_[m->tet[i]] = 0;
  { int *lst = (int *) malloc (sizeof (int) * n), *xyz = (int *) malloc (sizeof (int) * 3 * n), c = 0, keep = rn (3) == 0;
    for (i = 0; i < n; ++i) if (new_[i] == 0) lst[c++] = i;
    if (!keep) for (i = c - 1; i > 0; --i) { j = rn (i + 1); x = lst[i]; lst[i] = lst[j]; lst[j] = x; }
    for (i = 0; i < c; ++i) { new_[lst[i]] = i; for (k = 0; k < 3; ++k) xyz[3 * i + k] = m->xyz[3 * lst[i] + k]; }
    for (i = 0; i < 4 * used; ++i) m->tet[i] = new_[m->tet[i]];
    m->nn = c; free (m->xyz); m->xyz = xyz; free (lst); }
  free (new_); free (cell); free (all);
}
static void tet_free (tetmesh *m) { free (m->xyz); free (m->tet); free (m->attr); }
/* a connectivity made of tetrahedra in memory */
p4est_connectivity_t *conn_tets (int seed, int maxt)
{
  tetmesh m; p8est_tets_t T; int i; p4est_connectivity_t *c;
  rnd_same (hash64 ((uint64_t) seed * 17 + 3));
  tet_make (&m, maxt);
  T.nodes = sc_array_new_count (sizeof (double), 3 * m.nn);
  for (i = 0; i < 3 * m.nn; ++i) *(double *) sc_array_index (T.nodes, i) = m.xyz[i];
  T.tets = sc_array_new_count (sizeof (p4est_topidx_t), 4 * m.nt);
  for (i = 0; i < 4 * m.nt; ++i) *(p4est_topidx_t *) sc_array_index (T.tets, i) = m.tet[i];
  T.tet_attributes = NULL;
  p8est_tets_make_righthanded (&T);
  c = p8est_connectivity_new_tets (&T);
  sc_array_destroy (T.nodes); sc_array_destroy (T.tets); tet_free (&m);
  return c;
}
static void put_list (const char *name, const int *v, int n, int w)
{
  int i, j;
  sb_sep (&pre); sb_printf (&pre, "\"%s\":[", name);
  for (i = 0; i < n; ++i) {
    sb_sep (&pre);
    if (w == 1) { sb_printf (&pre, "%d", v[i]); continue; }
    sb_printf (&pre, "[");
    for (j = 0; j < w; ++j) { sb_sep (&pre); sb_printf (&pre, "%d", v[w * i + j]); }
    sb_printf (&pre, "]");
  }
  sb_printf (&pre, "]");
}
static void put_dbl (const char *name, const double *v, int n)
{
  int i, *w = (int *) malloc (sizeof (int) * (3 * n + 1));
  for (i = 0; i < 3 * n; ++i) w[i] = v[i] == floor (v[i]) && fabs (v[i]) < 1e6 ? (int) v[i] : -999999;
  put_list (name, w, n, 3);
  free (w);
}
static void put_tix (const char *name, sc_array_t *a)
{
  int i, n = (int) a->elem_count, *w = (int *) malloc (sizeof (int) * (n + 1));
  for (i = 0; i < n; ++i) w[i] = (int) *(p4est_topidx_t *) sc_array_index (a, i);
  put_list (name, w, n / 4, 4);
  free (w);
}
/* tetgen files; mode > 0: with an error */
static void tet_files (const char *base, const tetmesh *m, int mode)
{
  char name[4500]; FILE *fp; int i, k, na = rn (3), mark = rn (2), bad = rn (m->nt), badn = rn (m->nn), one = mode == 7, onet = mode == 8;
  if (mode == 6) badn = m->nn - 1;
  if (mode == 5) bad = m->nt - 1;
  snprintf (name, sizeof name, "%s.node", base);
  if (mode != 1) {
    fp = fopen (name, "wb");
    fprintf (fp, "%d  %d  %d  %d\n", m->nn, mode == 9 ? 2 : 3, na, mark);
    for (i = 0; i < m->nn; ++i) {
      if (mode == 6 && i == badn) { if (rn (2)) fprintf (fp, "%d %d", i, m->xyz[3 * i]); break; }
      fprintf (fp, "%d", i + one);
      for (k = 0; k < 3; ++k) {
        if (mode == 13 && i == badn && k == 2) fprintf (fp, " x");
        else if (rn (2)) fprintf (fp, rn (2) ? "  %d" : " %d.0", m->xyz[3 * i + k]);
        else fprintf (fp, "  %.6e", (double) m->xyz[3 * i + k]);
      }
      for (k = 0; k < na; ++k) fprintf (fp, " %.2f", .25 * rn (99));
      if (mark) fprintf (fp, "  %d", rn (3));
      fprintf (fp, "\n");
    }
    fclose (fp);
  }
  snprintf (name, sizeof name, "%s.ele", base);
  if (mode != 2) {
    fp = fopen (name, "wb");
    fprintf (fp, "%d  %d  %d\n", m->nt, mode == 10 ? (rn (2) ? 10 : 3) : 4, m->na || mode == 12);
    for (i = 0; i < m->nt; ++i) {
      int t[4];
      if (mode == 5 && i == bad) { if (rn (2)) fprintf (fp, "%d 0 1", i); break; }
      for (k = 0; k < 4; ++k) t[k] = m->tet[4 * i + k];
      if (i == bad) { if (mode == 3) t[rn (4)] = m->nn; if (mode == 4) t[rn (4)] = -1 - rn (3); if (mode == 11) t[rn (4)] = m->nn + 1 + rn (100); }
      fprintf (fp, rn (2) ? "%d  %d %d %d %d" : " %d %d  %d %d  %d", i + onet, t[0], t[1], t[2], t[3]);
      if (m->na && !(mode == 12 && i == bad)) fprintf (fp, "  %d", m->attr[i]);
      if (!(mode == 12 && !m->na && i == m->nt - 1)) { if (mode == 12 && !m->na) fprintf (fp, " 1"); }
      if (mode == 12 && m->na && i == bad) fprintf (fp, " a");
      fprintf (fp, "\n");
    }
    fclose (fp);
  }
}
static void op_tets (void)
{
  int d = toki (), i, mode, rh, n; long sd = tokl (); char base[4300], name[4500]; tetmesh m; p8est_tets_t *T; p4est_connectivity_t *c; sc_array_t *a;
  mode = toki ();
  rnd_seed (hash64 ((uint64_t) sd * 23 + 7));
  tet_make (&m, 9);
  rh = rn (4) > 0;
  if (!rh) for (i = 0; i < m.nt; ++i) if (tet_det (&m, m.tet + 4 * i) < 0) { n = m.tet[4 * i]; m.tet[4 * i] = m.tet[4 * i + 1]; m.tet[4 * i + 1] = n; }
  snprintf (base, sizeof base, "%s/tet%d.%d", scratch, rank, opno);
  tet_files (base, &m, mode);
  T = p8est_tets_read (base);
  preint ("cs", d); preint ("mode", mode); preint ("null", T == NULL); preint ("rh", rh); preint ("na", m.na);
  if (mode == 0) {
    put_list ("wn", m.xyz, m.nn, 3); put_list ("wt", m.tet, m.nt, 4); put_list ("wa", m.attr, m.na ? m.nt : 0, 1);
  }
  if (mode == 0 && T != NULL) {
    put_dbl ("rn", (double *) T->nodes->array, (int) T->nodes->elem_count / 3);
    put_tix ("rt", T->tets);
    put_list ("ra", T->tet_attributes ? (int *) T->tet_attributes->array : NULL, T->tet_attributes ? (int) T->tet_attributes->elem_count : 0, 1);
    snprintf (name, sizeof name, "%s.ele", base);
    a = p8est_tets_read_ele (name, rn (2) ? -1 : m.nn, NULL);
    if (a == NULL) a = sc_array_new (sizeof (p4est_topidx_t));
    put_tix ("rt2", a); sc_array_destroy (a);
    preint ("flips", rh ? (int) p8est_tets_make_righthanded (T) : 0);
    put_tix ("ft", T->tets);
    c = p8est_connectivity_new_tets (T);
    put_conn (&pre, c); put_topo (c);
    n = (int) c->num_trees; preint ("tab", (int) c->tree_attr_bytes);
    sb_sep (&pre); sb_printf (&pre, "\"ta\":[");
    for (i = 0; c->tree_attr_bytes == 1 && i < n; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", (int) (int8_t) c->tree_to_attr[i]); }
    sb_printf (&pre, "]");
    if (C[d]) p4est_connectivity_destroy (C[d]);
    C[d] = c;
  }
  if (T) p8est_tets_destroy (T);
  snprintf (name, sizeof name, "%s.ele", base); unlink (name);
  snprintf (name, sizeof name, "%s.node", base); unlink (name);
  tet_free (&m);
  if (rank > 0) sb_reset (&pre);
  emit ("tets");
}
#endif

int op_topo (const char *k)
{
#ifdef P4_TO_P8
  if (!strcmp (k, "tets")) { op_tets (); return 1; }
#endif
  if (!strcmp (k, "xform")) {
    int s = toki (); long sd = tokl (); int n = toki (), i, h;
    rnd_seed (hash64 ((uint64_t) sd * 5 + 3));
    h = conn_hash (C[s]);
    preint ("cs", s);
    sb_sep (&pre); sb_printf (&pre, "\"calls\":[");
    for (i = 0; i < n; ++i) xone (C[s]);
    sb_printf (&pre, "],\"kept\":%d", conn_hash (C[s]) == h);
    if (rank > 0) sb_reset (&pre);
    emit ("xform");
    return 1;
  }
  if (!strcmp (k, "cop")) {
    int d = toki (), s = toki (), n, i, h = conn_hash (C[s]);
    const char *w = tok ();
    p4est_connectivity_t *c = NULL, *o = C[s];
    char wh[32];
    snprintf (wh, sizeof wh, "%s", w);
    if ((!strcmp (wh, "complete") || !strcmp (wh, "redcomp") || !strcmp (wh, "inp")) && !by_vertices (o)) snprintf (wh, sizeof wh, "copy");
    preint ("cs", d); preint ("c1", s);
    sb_sep (&pre); sb_printf (&pre, "\"what\":\"%s\"", wh);
    if (!strcmp (wh, "permute")) {
      long sd = tokl (); int dir = toki (); sc_array_t *p = sc_array_new_count (sizeof (size_t), (size_t) o->num_trees); size_t *a = (size_t *) p->array, *b;
      rnd_seed (hash64 ((uint64_t) sd)); n = (int) o->num_trees;
      for (i = 0; i < n; ++i) a[i] = (size_t) i;
      for (i = n - 1; i > 0; --i) { int j = rn (i + 1); size_t x = a[i]; a[i] = a[j]; a[j] = x; }
      b = (size_t *) malloc (sizeof (size_t) * n); memcpy (b, a, sizeof (size_t) * n);
      c = conn_copy2 (o);
      p4est_connectivity_permute (c, p, dir);
      preint ("dir", dir); sb_sep (&pre); sb_printf (&pre, "\"perm\":[");
      for (i = 0; i < n; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", (int) b[i]); }
      sb_printf (&pre, "],\"pkept\":%d", !memcmp (b, p->array, sizeof (size_t) * n));
      free (b); sc_array_destroy (p);
    }
    else if (!strcmp (wh, "reduce")) { c = conn_copy2 (o); p4est_connectivity_reduce (c); }
    else if (!strcmp (wh, "complete")) { c = conn_copy2 (o); p4est_connectivity_complete (c); }
    else if (!strcmp (wh, "redcomp")) { c = conn_copy2 (o); p4est_connectivity_reduce (c); p4est_connectivity_complete (c); }
    else if (!strcmp (wh, "copy")) c = p4est_connectivity_copy (o, 1);
    else if (!strcmp (wh, "join")) {
      long sd = tokl (); int weird = toki (), tr;
      c = conn_copy2 (o);
      rnd_seed (hash64 ((uint64_t) sd * 3 + 1));
      sb_sep (&pre); sb_printf (&pre, "\"jn\":[");
      for (tr = 0; tr < 200; ++tr) {
        int nt = (int) c->num_trees, t1 = rn (nt), f1 = rn (P4EST_FACES), t2 = rn (nt), f2 = rn (P4EST_FACES), or = rn (P4EST_HALF);
        if (c->tree_to_tree[P4EST_FACES * t1 + f1] != t1 || c->tree_to_face[P4EST_FACES * t1 + f1] != f1) continue;
        if (c->tree_to_tree[P4EST_FACES * t2 + f2] != t2 || c->tree_to_face[P4EST_FACES * t2 + f2] != f2) continue;
        if (t1 == t2 && f1 == f2) continue;
        if (!weird && t1 == t2 && f1 / 2 != f2 / 2) continue;
        p4est_connectivity_join_faces (c, t1, t2, f1, f2, or);
        sb_printf (&pre, "%d,%d,%d,%d,%d", t1, t2, f1, f2, or);
        break;
      }
      sb_printf (&pre, "]");
    }
    else if (!strcmp (wh, "refine")) {
      n = toki (); preint ("n", n);
      c = o->num_vertices > 0 ? p4est_connectivity_refine (o, n) : conn_copy2 (o);
      put_vx ("nvx", c, pow (n, P4EST_DIM));
      sb_sep (&pre); sb_printf (&pre, "\"ttv0\":[");
      for (i = 0; o->num_vertices > 0 && i < o->num_trees; ++i) {
        int j;
        sb_sep (&pre); sb_printf (&pre, "[");
        for (j = 0; j < P4EST_CHILDREN; ++j) { sb_sep (&pre); sb_printf (&pre, "%d", (int) o->tree_to_vertex[P4EST_CHILDREN * i + j]); }
        sb_printf (&pre, "]");
      }
      sb_printf (&pre, "]");
    }
    else if (!strcmp (wh, "inp")) {
      char name[4400]; FILE *fp; long sd = tokl ();
      rnd_seed (hash64 ((uint64_t) sd));
      snprintf (name, sizeof name, "%s/inp%d.%d", scratch, rank, opno);
      if (o->num_vertices > 0) { fp = fopen (name, "wb"); write_inp (fp, o, 0); fclose (fp); c = p4est_connectivity_read_inp (name); unlink (name); }
      else c = conn_copy2 (o);
      if (c == NULL) { preint ("null", 1); c = conn_copy2 (o); } else preint ("null", 0);
    }
    else { fprintf (stderr, "DRV: cop %s\n", wh); MPI_Abort (MPI_COMM_WORLD, 9); }
    preint ("kept", conn_hash (o) == h);
    preint ("eq", p4est_connectivity_is_equal (o, c)); preint ("eqv", p4est_connectivity_is_equivalent (o, c)); preint ("eqv2", p4est_connectivity_is_equivalent (c, o));
    put_vx ("vx0", o, 1.);
    put_conn (&pre, c); put_topo (c);
    if (rank > 0) sb_reset (&pre);
    if (C[d]) p4est_connectivity_destroy (C[d]);
    C[d] = c;
    emit ("cop");
    return 1;
  }
  if (!strcmp (k, "cbad")) {
    /* one entry of the tables changed to another one within its range */
    int s = toki (); long sd = tokl (); int m, i, e; p4est_connectivity_t *c = conn_copy2 (C[s]); int nt = (int) c->num_trees, oldv;
    rnd_seed (hash64 ((uint64_t) sd * 11 + 5));
    m = rn (6);
#ifndef P4_TO_P8
    if (m >= 4) m -= 2;
#else
    if (m >= 4 && c->num_edges == 0) m = rn (2);
#endif
    if ((m == 2 || m == 3) && c->num_corners == 0) m = rn (2);
    preint ("cs", s); 
    switch (m) {
    case 0: i = rn (P4EST_FACES * nt); oldv = c->tree_to_tree[i]; c->tree_to_tree[i] = rn (nt); break;
    case 1: i = rn (P4EST_FACES * nt); oldv = c->tree_to_face[i]; c->tree_to_face[i] = (int8_t) rn (P4EST_FACES * P4EST_HALF); break;
    case 2: i = rn (P4EST_CHILDREN * nt); oldv = 0; c->tree_to_corner[i] = rn ((int) c->num_corners + 1) - 1; break;
    case 3: i = rn ((int) c->ctt_offset[c->num_corners]); oldv = 0; e = rn (2); if (e) c->corner_to_tree[i] = rn (nt); else c->corner_to_corner[i] = (int8_t) rn (P4EST_CHILDREN); break;
#ifdef P4_TO_P8
    case 4: i = rn (12 * nt); oldv = 0; c->tree_to_edge[i] = rn ((int) c->num_edges + 1) - 1; break;
    default: i = rn ((int) c->ett_offset[c->num_edges]); oldv = 0; e = rn (2); if (e) c->edge_to_tree[i] = rn (nt); else c->edge_to_edge[i] = (int8_t) rn (24); break;
#else
    default: oldv = 0;
#endif
    }
    (void) oldv;
    preint ("m", m);
    put_conn (&pre, c); preint ("val", p4est_connectivity_is_valid (c));
    preint ("eq", p4est_connectivity_is_equal (C[s], c));
    if (rank > 0) sb_reset (&pre);
    p4est_connectivity_destroy (c);
    emit ("cbad");
    return 1;
  }
  return 0;
}
