#include "drv.h"

static void put_ints (sbuf *b, const char *name, const p4est_topidx_t *a, int n)
{
  int i;
  sb_sep (b); sb_printf (b, "\"%s\":[", name);
  for (i = 0; i < n; ++i) { sb_sep (b); sb_printf (b, "%d", (int) a[i]); }
  sb_printf (b, "]");
}
static void put_rows (sbuf *b, const char *name, const void *a, int isi8, int nt, int w)
{
  int i, j;
  sb_sep (b); sb_printf (b, "\"%s\":[", name);
  for (i = 0; i < nt; ++i) {
    sb_sep (b); sb_printf (b, "[");
    for (j = 0; j < w; ++j) {
      int v = isi8 ? (int) ((const int8_t *) a)[i * w + j] : (int) ((const p4est_topidx_t *) a)[i * w + j];
      sb_sep (b); sb_printf (b, "%d", v);
    }
    sb_printf (b, "]");
  }
  sb_printf (b, "]");
}

/* body of an object describing the connectivity */
void put_conn (sbuf *b, p4est_connectivity_t *c)
{
  int i, j, nt = (int) c->num_trees;
  sb_sep (b); sb_printf (b, "\"nt\":%d,\"nv\":%d,\"nc\":%d", nt, (int) c->num_vertices, (int) c->num_corners);
  put_rows (b, "ttt", c->tree_to_tree, 0, nt, P4EST_FACES);
  put_rows (b, "ttf", c->tree_to_face, 1, nt, P4EST_FACES);
  if (c->tree_to_vertex) put_rows (b, "ttv", c->tree_to_vertex, 0, nt, P4EST_CHILDREN);
  else sb_printf (b, ",\"ttv\":[]");
  if (c->num_corners > 0 && c->tree_to_corner) put_rows (b, "ttc", c->tree_to_corner, 0, nt, P4EST_CHILDREN);
  else sb_printf (b, ",\"ttc\":[]");
  sb_printf (b, ",\"cg\":[");
  for (i = 0; i < c->num_corners; ++i) {
    sb_sep (b); sb_printf (b, "[");
    for (j = c->ctt_offset[i]; j < c->ctt_offset[i + 1]; ++j) { sb_sep (b); sb_printf (b, "[%d,%d]", (int) c->corner_to_tree[j], (int) c->corner_to_corner[j]); }
    sb_printf (b, "]");
  }
  sb_printf (b, "]");
#ifdef P4_TO_P8
  sb_printf (b, ",\"ne\":%d", (int) c->num_edges);
  if (c->num_edges > 0 && c->tree_to_edge) put_rows (b, "tte", c->tree_to_edge, 0, nt, P8EST_EDGES);
  else sb_printf (b, ",\"tte\":[]");
  sb_printf (b, ",\"eg\":[");
  for (i = 0; i < c->num_edges; ++i) {
    sb_sep (b); sb_printf (b, "[");
    for (j = c->ett_offset[i]; j < c->ett_offset[i + 1]; ++j) { sb_sep (b); sb_printf (b, "[%d,%d,%d]", (int) c->edge_to_tree[j], (int) c->edge_to_edge[j] % 12, (int) c->edge_to_edge[j] / 12); }
    sb_printf (b, "]");
  }
  sb_printf (b, "]");
#else
  sb_printf (b, ",\"ne\":0,\"tte\":[],\"eg\":[]");
#endif
  (void) put_ints;
}

p4est_connectivity_t *conn_tets (int seed, int maxt);
static uint64_t crs;
static int cr (int n) { crs = hash64 (crs); return (int) ((crs >> 16) % n); }

/* trees of an m x n (x p) grid of cells in random frames and order, with
 * random holes; identification by shared vertices only */
p4est_connectivity_t *conn_rot (int seed, int m, int n, int p, int holes)
{
  int nv = (m + 1) * (n + 1) * (p + 1), ncell = m * n * p, nt, i, a, b;
  int *cell = (int *) malloc (sizeof (int) * ncell);
  p4est_connectivity_t *c;
  crs = hash64 (seed * 31 + 5);
  for (i = 0; i < ncell; ++i) cell[i] = i;
  for (i = ncell - 1; i > 0; --i) { int j = cr (i + 1), x = cell[i]; cell[i] = cell[j]; cell[j] = x; }
  nt = ncell - (holes < ncell ? holes : ncell - 1);
#ifdef P4_TO_P8
  c = p4est_connectivity_new (nv, nt, 0, 0, 0, 0);
#else
  c = p4est_connectivity_new (nv, nt, 0, 0);
#endif
  for (i = 0; i < nv; ++i) {
    c->vertices[3 * i] = i % (m + 1); c->vertices[3 * i + 1] = i / (m + 1) % (n + 1); c->vertices[3 * i + 2] = i / (m + 1) / (n + 1);
  }
  for (i = 0; i < nt; ++i) {
    int cx = cell[i] % m, cy = cell[i] / m % n, cz = cell[i] / m / n, k;
    int perm[3] = { 0, 1, 2 }, flip[3] = { 0, 0, 0 };
#ifdef P4_TO_P8
    for (;;) {
      int sgn = 1;
      for (a = 2; a > 0; --a) { int j = cr (a + 1), x = perm[a]; perm[a] = perm[j]; perm[j] = x; }
      for (a = 0; a < 3; ++a) { flip[a] = cr (2); if (flip[a]) sgn = -sgn; }
      for (a = 0; a < 3; ++a) for (b = a + 1; b < 3; ++b) if (perm[a] > perm[b]) sgn = -sgn;
      if (sgn > 0) break;
    }
#else
    if (cr (2)) { perm[0] = 1; perm[1] = 0; }
    flip[0] = cr (2); flip[1] = cr (2);
    (void) b;
#endif
    for (k = 0; k < P4EST_CHILDREN; ++k) {
      int w[3] = { 0, 0, 0 };
      for (a = 0; a < P4EST_DIM; ++a) w[perm[a]] = ((k >> a) & 1) ^ flip[a];
      c->tree_to_vertex[P4EST_CHILDREN * i + k] = (cx + w[0]) + (m + 1) * ((cy + w[1]) + (n + 1) * (cz + w[2]));
    }
    for (k = 0; k < P4EST_FACES; ++k) { c->tree_to_tree[P4EST_FACES * i + k] = i; c->tree_to_face[P4EST_FACES * i + k] = (int8_t) k; }
  }
  free (cell);
  p4est_connectivity_complete (c);
  return c;
}

p4est_connectivity_t *conn_copy2 (p4est_connectivity_t *c);
void put_topo (p4est_connectivity_t *c);
static char conn_name[64];
static p4est_connectivity_t *conn_copy (p4est_connectivity_t *c)
{
  sc_array_t *buf = p4est_connectivity_deflate (c, P4EST_CONN_ENCODE_NONE);
  p4est_connectivity_t *d = p4est_connectivity_inflate (buf);
  sc_array_destroy (buf);
  return d;
}

p4est_connectivity_t *conn_copy2 (p4est_connectivity_t *c) { return conn_copy (c); }

#ifdef P4_TO_P8
/* union-find with parity on directed tree edges: is some edge glued to itself
 * in reverse? */
static int uf[12 * 256], ufp[12 * 256];
static int uf_find (int x, int *p)
{ int q = 0; while (uf[x] != x) { q ^= ufp[x]; x = uf[x]; } *p = q; return x; }
static int uf_join (int a, int b, int par)
{
  int pa, pb, ra = uf_find (a, &pa), rb = uf_find (b, &pb);
  if (ra == rb) return (pa ^ pb ^ par) != 0;
  uf[ra] = rb; ufp[ra] = pa ^ pb ^ par;
  return 0;
}
static int degenerate (p4est_connectivity_t *c)
{
  int i, j, t, f, bad = 0, nt = (int) c->num_trees;
  for (i = 0; i < 12 * nt; ++i) { uf[i] = i; ufp[i] = 0; }
  for (t = 0; t < nt; ++t)
    for (f = 0; f < 6; ++f) {
      int t2 = c->tree_to_tree[6 * t + f], v = c->tree_to_face[6 * t + f], f2 = v % 6, o = v / 6;
      if (t2 == t && f2 == f) continue;
      for (i = 0; i < 4; ++i) {
        int e = p8est_face_edges[f][i], k, e2, a, b, fc[2];
        for (k = 0; k < 2; ++k) {
          int cn = p8est_edge_corners[e][k], z;
          for (z = 0; z < 4; ++z) if (p8est_face_corners[f][z] == cn) break;
          fc[k] = p8est_face_corners[f2][p8est_connectivity_face_neighbor_face_corner (z, f, f2, o)];
        }
        for (e2 = 0; e2 < 12; ++e2) {
          a = p8est_edge_corners[e2][0]; b = p8est_edge_corners[e2][1];
          if ((a == fc[0] && b == fc[1]) || (a == fc[1] && b == fc[0])) break;
        }
        bad |= uf_join (12 * t + e, 12 * t2 + e2, p8est_edge_corners[e2][0] != fc[0]);
      }
    }
  for (i = 0; i < c->num_edges; ++i)
    for (j = c->ett_offset[i] + 1; j < c->ett_offset[i + 1]; ++j) {
      int k = c->ett_offset[i];
      bad |= uf_join (12 * c->edge_to_tree[k] + c->edge_to_edge[k] % 12, 12 * c->edge_to_tree[j] + c->edge_to_edge[j] % 12,
                      (c->edge_to_edge[k] / 12) ^ (c->edge_to_edge[j] / 12));
    }
  return bad;
}
#else
static int degenerate (p4est_connectivity_t *c) { return 0; }
#endif

/* join up to cnt random pairs of boundary faces */
p4est_connectivity_t *conn_join (p4est_connectivity_t *c, int seed, int cnt, int weird, sbuf *log)
{
  int tries;
  crs = hash64 (seed * 77 + 3);
  for (tries = 0; cnt > 0 && tries < 40; ++tries) {
    int nt = (int) c->num_trees;
    int t1 = cr (nt), f1 = cr (P4EST_FACES), t2 = cr (nt), f2 = cr (P4EST_FACES), o = cr (P4EST_HALF);
    p4est_connectivity_t *d;
    if (c->tree_to_tree[P4EST_FACES * t1 + f1] != t1 || c->tree_to_face[P4EST_FACES * t1 + f1] != f1) continue;
    if (c->tree_to_tree[P4EST_FACES * t2 + f2] != t2 || c->tree_to_face[P4EST_FACES * t2 + f2] != f2) continue;
    if (t1 == t2 && f1 == f2) continue;
    if (!weird && t1 == t2 && f1 / 2 != f2 / 2) continue;
    d = conn_copy (c);
    p4est_connectivity_join_faces (d, t1, t2, f1, f2, o);
    if (degenerate (d)) { p4est_connectivity_destroy (d); continue; }
    p4est_connectivity_destroy (c);
    c = d;
    --cnt;
    if (log) { sb_sep (log); sb_printf (log, "[%d,%d,%d,%d,%d]", t1, t2, f1, f2, o); }
  }
  return c;
}

static int conn_args[16], conn_na;
static int ta (void) { int v = toki (); if (conn_na < 16) conn_args[conn_na++] = v; return v; }
p4est_connectivity_t *conn_make (void)
{
  const char *k = tok ();
  conn_na = 0;
  snprintf (conn_name, sizeof conn_name, "%s", k);
  if (!strcmp (k, "name")) {
    const char *n = tok ();
    snprintf (conn_name, sizeof conn_name, "%s", n);
    p4est_connectivity_t *c = NULL;
#ifdef P4_TO_P8
    if (!strcmp (n, "shell")) c = p8est_connectivity_new_shell ();
    else if (!strcmp (n, "sphere")) c = p8est_connectivity_new_sphere ();
    else if (!strcmp (n, "twocubes")) c = p8est_connectivity_new_twocubes ();
    else if (!strcmp (n, "twowrap")) c = p8est_connectivity_new_twowrap ();
    else if (!strcmp (n, "twotrees")) { int a = ta (), b = ta (), d = ta (); c = p8est_connectivity_new_twotrees (a, b, d); }
    else if (!strcmp (n, "torus")) c = p8est_connectivity_new_torus (ta ());
    else if (!strcmp (n, "drop")) c = p8est_connectivity_new_drop ();
#else
    if (!strcmp (n, "twotrees")) { int a = ta (), b = ta (), d = ta (); c = p4est_connectivity_new_twotrees (a, b, d); }
    else if (!strcmp (n, "diskp")) { int a = ta (), b = ta (); c = p4est_connectivity_new_disk (a, b); }
    else if (!strcmp (n, "circle")) c = p4est_connectivity_new_circle ();
    else if (!strcmp (n, "drop")) c = p4est_connectivity_new_drop ();
#endif
    if (!c) c = p4est_connectivity_new_byname (n);
    return c;
  }
  if (!strcmp (k, "brick")) {
    int m = ta (), n = ta ();
#ifdef P4_TO_P8
    int p = ta (), a = ta (), b = ta (), d = ta ();
    return p8est_connectivity_new_brick (m, n, p, a, b, d);
#else
    int a = ta (), b = ta ();
    return p4est_connectivity_new_brick (m, n, a, b);
#endif
  }
  if (!strcmp (k, "rot")) {
    int s = ta (), m = ta (), n = ta (), p = ta (), h = ta ();
    return conn_rot (s, m, n, P4EST_DIM == 2 ? 1 : p, h);
  }
#ifdef P4_TO_P8
  if (!strcmp (k, "tets")) { int s = ta (), n = ta (); return conn_tets (s, n); }
#endif
  if (!strcmp (k, "glue")) {    /* nt separate trees, joined at random */
    int s = ta (), nt = ta (), cnt = ta (), weird = ta (), i;
    p4est_connectivity_t *c;
#ifdef P4_TO_P8
    c = p4est_connectivity_new (0, nt, 0, 0, 0, 0);
#else
    c = p4est_connectivity_new (0, nt, 0, 0);
#endif
    for (i = 0; i < nt * P4EST_FACES; ++i) { c->tree_to_tree[i] = i / P4EST_FACES; c->tree_to_face[i] = (int8_t) (i % P4EST_FACES); }
    return conn_join (c, s, cnt, weird, NULL);
  }
  if (!strcmp (k, "rotjoin")) {
    int s = ta (), m = ta (), n = ta (), p = ta (), h = ta (), cnt = ta (), weird = ta ();
    p4est_connectivity_t *c = conn_rot (s, m, n, P4EST_DIM == 2 ? 1 : p, h);
    return conn_join (c, s + 1, cnt, weird, NULL);
  }
  fprintf (stderr, "DRV: connectivity kind %s\n", k);
  MPI_Abort (MPI_COMM_WORLD, 9);
  return NULL;
}

static void put_args (void)
{ int i; sb_sep (&pre); sb_printf (&pre, "\"args\":["); for (i = 0; i < conn_na; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", conn_args[i]); } sb_printf (&pre, "]"); }

int op_conn (const char *k)
{
  if (!strcmp (k, "conn")) {
    int s = toki ();
    if (C[s]) p4est_connectivity_destroy (C[s]);
    C[s] = conn_make ();
    if (C[s] == NULL) { fprintf (stderr, "DRV: no connectivity\n"); MPI_Abort (MPI_COMM_WORLD, 9); }
    if (rank == 0) { sb_sep (&pre); sb_printf (&pre, "\"cs\":%d,\"nm\":\"%s\"", s, conn_name); put_args (); put_conn (&pre, C[s]); put_topo (C[s]); }
    emit ("conn");
    return 1;
  }
  return 0;
}
