/* save/load of forests, deflate/inflate, connectivity input and output */
#include "drv.h"
#include <sc_io.h>
#include <unistd.h>
#include <sys/stat.h>

/* content hash of a connectivity without and of its attributes */
static uint64_t hmem (uint64_t h, const void *p, size_t n)
{ const unsigned char *c = (const unsigned char *) p; size_t i; for (i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL; return hash64 (h + n); }
static int trim30 (uint64_t h) { return (int) (hash64 (h) >> 34); }
int conn_hash (p4est_connectivity_t *c)
{
  uint64_t h = 77;
  const size_t ts = sizeof (p4est_topidx_t);
  h = hmem (h, &c->num_vertices, ts); h = hmem (h, &c->num_trees, ts); h = hmem (h, &c->num_corners, ts);
  if (c->num_vertices > 0) { h = hmem (h, c->vertices, 24 * (size_t) c->num_vertices); h = hmem (h, c->tree_to_vertex, ts * P4EST_CHILDREN * c->num_trees); }
  h = hmem (h, c->tree_to_tree, ts * P4EST_FACES * c->num_trees);
  h = hmem (h, c->tree_to_face, P4EST_FACES * c->num_trees);
#ifdef P4_TO_P8
  h = hmem (h, &c->num_edges, ts); h = hmem (h, c->ett_offset, ts * (c->num_edges + 1));
  if (c->num_edges > 0) { h = hmem (h, c->tree_to_edge, ts * P8EST_EDGES * c->num_trees);
    h = hmem (h, c->edge_to_tree, ts * c->ett_offset[c->num_edges]); h = hmem (h, c->edge_to_edge, c->ett_offset[c->num_edges]); }
#endif
  h = hmem (h, c->ctt_offset, ts * (c->num_corners + 1));
  if (c->num_corners > 0) { h = hmem (h, c->tree_to_corner, ts * P4EST_CHILDREN * c->num_trees);
    h = hmem (h, c->corner_to_tree, ts * c->ctt_offset[c->num_corners]); h = hmem (h, c->corner_to_corner, c->ctt_offset[c->num_corners]); }
  return trim30 (h);
}
int conn_ahash (p4est_connectivity_t *c)
{
  uint64_t h = 99;
  h = hmem (h, &c->tree_attr_bytes, sizeof (size_t));
  if (c->tree_to_attr) h = hmem (h, c->tree_to_attr, c->tree_attr_bytes * c->num_trees);
  return trim30 (h);
}
static void fname (char *b, size_t n, int id) { snprintf (b, n, "%s/file%d", scratch, id); }
static long fcrc (const char *name, int *crc)
{
  FILE *f = fopen (name, "rb");
  char buf[65536]; size_t n; long tot = 0; uint64_t h = 5;
  *crc = -1;
  if (!f) return -1;
  while ((n = fread (buf, 1, sizeof buf, f)) > 0) { h = hmem (h, buf, n); tot += (long) n; }
  fclose (f);
  *crc = trim30 (h);
  return tot;
}

/* gather variable arrays of int on all processes */
static int *gather_all (const void *a, size_t bytes, size_t *tot)
{
  int *cnt = (int *) malloc (sizeof (int) * nproc), *dsp = (int *) malloc (sizeof (int) * (nproc + 1)), i, n = (int) bytes;
  char *r;
  PMPI_Allgather (&n, 1, MPI_INT, cnt, 1, MPI_INT, comm);
  dsp[0] = 0; for (i = 0; i < nproc; ++i) dsp[i + 1] = dsp[i] + cnt[i];
  *tot = (size_t) dsp[nproc];
  r = (char *) malloc (*tot + 8);
  PMPI_Allgatherv (a, n, MPI_BYTE, r, cnt, dsp, MPI_BYTE, comm);
  free (cnt); free (dsp);
  return (int *) r;
}
static void put_qrows (const char *n, const int *a, size_t rows)
{
  size_t i; int j;
  sb_sep (&loc); sb_printf (&loc, "\"%s\":[", n);
  for (i = 0; i < rows; ++i) {
    sb_sep (&loc); sb_printf (&loc, "[%d", a[i * (P4EST_DIM + 1) + P4EST_DIM]);
    for (j = 0; j < P4EST_DIM; ++j) sb_printf (&loc, ",%d", a[i * (P4EST_DIM + 1) + j]);
    sb_printf (&loc, "]");
  }
  sb_printf (&loc, "]");
}

static int up_mark;
int op_io (const char *k)
{
  if (!strcmp (k, "attr")) {
    int c = toki (), bytes = toki (), i, n; long seed = tokl ();
    p4est_connectivity_set_attr (C[c], (size_t) bytes);
    n = bytes * (int) C[c]->num_trees;
    for (i = 0; i < n; ++i) C[c]->tree_to_attr[i] = (char) hash64 (seed * 31 + i);
    return 1;
  }
  if (!strcmp (k, "save")) {
    int s = toki (), id = toki (), fl = toki (), crc;
    p4est_t *f = drv_forest (s);
    char name[4400]; long sz;
    fname (name, sizeof name, id);
    if (fl == 3 && (id & 1)) p4est_save (name, f, 1);
    else p4est_save_ext (name, f, fl & 1, (fl >> 1) & 1);
    PMPI_Barrier (comm);
    sz = rank == 0 ? fcrc (name, &crc) : 0;
    preint ("s", s); preint ("id", id); preint ("sd", fl & 1); preint ("sp", (fl >> 1) & 1); preint ("fsz", sz); preint ("crc", crc);
    locint ("ch", conn_hash (f->connectivity)); locint ("ah", conn_ahash (f->connectivity));
    put_state (f);
    emit ("save");
    return 1;
  }
  if (!strcmp (k, "load")) {
    int s = toki (), c = toki (), id = toki (), dsz = toki (), fl = toki (), rest = -1;
    p4est_connectivity_t *conn = NULL;
    p4est_t *f;
    char name[4400];
    fname (name, sizeof name, id);
    if (fl & 8) {
      /* several processes read the same stream */
      sc_io_source_t *src;
      src = sc_io_source_new (SC_IO_TYPE_FILENAME, SC_IO_ENCODE_NONE, name);
      f = p4est_source_ext (src, comm, (size_t) dsz, fl & 1, (fl >> 1) & 1, (fl >> 2) & 1, &up_mark, &conn);
      rest = (int) src->bytes_out;
      sc_io_source_destroy (src);
    }
    else if (!(fl & 6) && (id & 1)) f = p4est_load (name, comm, (size_t) dsz, fl & 1, &up_mark, &conn);
    else f = p4est_load_ext (name, comm, (size_t) dsz, fl & 1, (fl >> 1) & 1, (fl >> 2) & 1, &up_mark, &conn);
    F[s].f = f; F[s].cslot = c; C[c] = conn;
    preint ("s", s); preint ("cs", c); preint ("id", id); preint ("ds", dsz); preint ("ld", fl & 1); preint ("ap", (fl >> 1) & 1); preint ("fl", fl);
    if (rank == 0) put_conn (&pre, conn);
    locint ("ch", conn_hash (conn)); locint ("ah", conn_ahash (conn)); locint ("up", f->user_pointer == &up_mark && f->connectivity == conn);
    locint ("rest", rest);
    put_state (f);
    emit ("load");
    return 1;
  }
  if (!strcmp (k, "inflate")) {
    int s = toki (), d = toki (), fl = toki (), cor = toki (), part = toki (); long seed = tokl ();
    p4est_t *f = drv_forest (s), *g;
    sc_array_t *q, *da = NULL, *nq, *nd = NULL;
    p4est_gloidx_t *pt, *gfq, N = f->global_num_quadrants;
    const size_t w = (P4EST_DIM + 1) * sizeof (p4est_qcoord_t);
    p4est_topidx_t nt = f->connectivity->num_trees, t;
    int *all, *alld = NULL, i, wd = fl & 1 && f->data_size > 0; size_t tot; long n0, nn;
    q = p4est_deflate_quadrants (f, wd ? &da : NULL);
    pt = (p4est_gloidx_t *) malloc (sizeof (*pt) * (nt + 1));
    gfq = (p4est_gloidx_t *) malloc (sizeof (*gfq) * (nproc + 1));
    p4est_comm_count_pertree (f, pt);
    put_qrows ("arr", (int *) q->array, q->elem_count / (P4EST_DIM + 1));
    sb_sep (&loc); sb_printf (&loc, "\"arrv\":[");
    if (wd) for (i = 0; i < (int) da->elem_count; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", bytes_get (sc_array_index (da, i), da->elem_size)); }
    sb_printf (&loc, "],\"pt\":[");
    for (t = 0; t <= nt; ++t) { sb_sep (&loc); sb_printf (&loc, "%lld", (long long) pt[t]); }
    sb_printf (&loc, "]");
    all = gather_all (q->array, q->elem_count * sizeof (p4est_qcoord_t), &tot);
    if (wd) alld = gather_all (da->array, da->elem_count * da->elem_size, &tot);
    /* new partition */
    for (i = 0; i <= nproc; ++i)
      gfq[i] = part == 0 ? f->global_first_quadrant[i] : part == 1 ? p4est_partition_cut_gloidx (N, i, nproc) :
        part == 2 ? (i == nproc ? N : 0) : (i == 0 ? 0 : i == nproc ? N : (p4est_gloidx_t) 0);
    if (part == 3) for (i = 1; i < nproc; ++i) { p4est_gloidx_t x = (p4est_gloidx_t) (hash64 (seed + i) % (uint64_t) (N + 1)); gfq[i] = SC_MAX (x, gfq[i - 1]); }
    /* corruption of one place, the same on all processes */
    if (cor > 0) {
      uint64_t h = hash64 (seed * 7 + cor);
      long j = (long) (h % (uint64_t) N), j2 = (j + 1) % N;
      int *a = all + j * (P4EST_DIM + 1), *b = all + j2 * (P4EST_DIM + 1), e, x;
      h = hash64 (h);
      switch (cor) {
      case 1: for (e = 0; e <= P4EST_DIM; ++e) { x = a[e]; a[e] = b[e]; b[e] = x; } break;
      case 2: a[P4EST_DIM] += a[P4EST_DIM] < 28 ? 1 : -1; break;
      case 3: e = (int) (h % P4EST_DIM); x = P4EST_QUADRANT_LEN (a[P4EST_DIM]); a[e] += a[e] + (long) x < (long) P4EST_ROOT_LEN ? x : a[e] >= x ? -x : 0; break;
      case 4: for (e = 0; e <= P4EST_DIM; ++e) a[e] = b[e]; break;
      case 5: if (nt > 1) { t = 1 + (p4est_topidx_t) (h % (uint64_t) (nt - 1));
          if (pt[t] + 1 < pt[t + 1]) ++pt[t]; else if (pt[t] - 1 > pt[t - 1]) --pt[t]; } break;
      case 6: if (a[P4EST_DIM] > 0) { x = P4EST_QUADRANT_LEN (a[P4EST_DIM]); a[P4EST_DIM]--; for (e = 0; e < P4EST_DIM; ++e) a[e] &= ~(2 * x - 1); } break;
      default: ;
      }
    }
    n0 = (long) gfq[rank]; nn = (long) (gfq[rank + 1] - gfq[rank]);
    nq = sc_array_new_count (sizeof (p4est_qcoord_t), (P4EST_DIM + 1) * nn);
    memcpy (nq->array, (char *) all + w * n0, w * nn);
    if (wd) { nd = sc_array_new_count (f->data_size, nn); memcpy (nd->array, (char *) alld + f->data_size * n0, f->data_size * nn); }
    put_qrows ("in", (int *) nq->array, nn);
    g = (fl & 2) ? p4est_inflate_null (comm, f->connectivity, gfq, pt, nq, nd, &up_mark)
      : p4est_inflate (comm, f->connectivity, gfq, pt, nq, nd, &up_mark);
    preint ("s", s); preint ("d", d); preint ("wd", wd); preint ("cor", cor); preint ("nt", nt);
    if (rank == 0) {
      sb_sep (&pre); sb_printf (&pre, "\"ipt\":[");
      for (t = 0; t <= nt; ++t) { sb_sep (&pre); sb_printf (&pre, "%lld", (long long) pt[t]); }
      sb_printf (&pre, "],\"igfq\":[");
      for (i = 0; i <= nproc; ++i) { sb_sep (&pre); sb_printf (&pre, "%lld", (long long) gfq[i]); }
      sb_printf (&pre, "]");
    }
    locint ("nul", g == NULL);
    locint ("up", g != NULL && g->user_pointer == &up_mark);
    if (g != NULL && cor == 0) put_state (g);
    sc_array_destroy (q); if (da) sc_array_destroy (da); sc_array_destroy (nq); if (nd) sc_array_destroy (nd);
    free (all); free (alld); free (pt); free (gfq);
    if (g != NULL && cor != 0) { p4est_destroy (g); g = NULL; }
    if (g != NULL) { if (F[d].f) p4est_destroy (F[d].f); F[d].f = g; F[d].cslot = F[s].cslot; }
    emit ("inflate");
    return 1;
  }
  if (!strcmp (k, "cio")) {
    /* cio c c2 mode arg: copy a connectivity by some route */
    int c = toki (), c2 = toki (), mode = toki (), fl = 0, h1 = conn_hash (C[c]), a1 = conn_ahash (C[c]), h2, a2; long arg = tokl (); size_t bytes = 0;
    p4est_connectivity_t *n = NULL, *o = C[c];
    char name[4400];
    fname (name, sizeof name, 1000 + rank);
    preint ("c1", c); preint ("c2", c2); preint ("mode", mode);
    if (mode == 0) {
      fl = p4est_connectivity_save (name, o);
      n = p4est_connectivity_load (name, &bytes);
      { struct stat st; if (stat (name, &st) || (size_t) st.st_size != bytes) fl = 2; }
      unlink (name);
    }
    else if (mode == 1) { sc_array_t *a = p4est_connectivity_deflate (o, P4EST_CONN_ENCODE_NONE); n = p4est_connectivity_inflate (a); sc_array_destroy (a); }
    else if (mode == 2) {
      /* two in one stream, with something in between */
      sc_array_t *a = sc_array_new (1); sc_io_sink_t *si = sc_io_sink_new (SC_IO_TYPE_BUFFER, SC_IO_MODE_WRITE, SC_IO_ENCODE_NONE, a); sc_io_source_t *so;
      p4est_connectivity_t *m;
      fl = p4est_connectivity_sink (o, si); fl |= sc_io_sink_write (si, "between", 7); fl |= p4est_connectivity_sink (o, si); fl |= sc_io_sink_destroy (si);
      so = sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, a);
      m = p4est_connectivity_source (so); fl |= sc_io_source_read (so, name, 7, NULL); fl |= memcmp (name, "between", 7) != 0;
      n = p4est_connectivity_source (so); fl |= sc_io_source_destroy (so);
      fl |= m == NULL || conn_hash (m) != h1 || conn_ahash (m) != a1;
      if (m) p4est_connectivity_destroy (m);
      sc_array_destroy (a);
    }
    else if (mode == 3) {
      int root = (int) (arg % nproc);
      p4est_connectivity_t *x = rank == root ? p4est_connectivity_copy (o, 1) : NULL;
      n = p4est_connectivity_bcast (x, root, comm);
      fl = rank == root && n != x;
    }
    else if (mode == 4 || mode == 5) n = p4est_connectivity_copy (o, mode == 4);
    else if (mode == 6 || mode == 7) {
      int root = mode == 6 ? (int) (arg % nproc) : 0;
      p4est_connectivity_t *x = rank == root ? p4est_connectivity_copy (o, 1) : NULL;
      p4est_connectivity_shared_t *sh = mode == 6 ? p4est_connectivity_share (x, root, comm) : p4est_connectivity_mission (x, MPI_COMM_TYPE_SHARED, comm);
      fl = !p4est_connectivity_is_valid (sh->conn);
      n = p4est_connectivity_copy (sh->conn, 1);
      p4est_connectivity_shared_destroy (sh);
    }
    else if (mode == 8) {          /* truncated buffer or file */
      sc_array_t *a = p4est_connectivity_deflate (o, P4EST_CONN_ENCODE_NONE);
      size_t len = a->elem_count * a->elem_size, m = (size_t) (hash64 (arg) % len);
      if (arg & 1) { sc_array_t v; sc_array_init_data (&v, a->array, 1, m); n = p4est_connectivity_inflate (&v); }
      else { FILE *fp = fopen (name, "wb"); fwrite (a->array, 1, m, fp); fclose (fp); n = p4est_connectivity_load (name, NULL); unlink (name); }
      sc_array_destroy (a);
    }
    else if (mode == 9) {          /* some word of the header or the tables changed */
      sc_array_t *a = p4est_connectivity_deflate (o, P4EST_CONN_ENCODE_NONE);
      unsigned char *p = (unsigned char *) a->array;
      if (arg % 3 == 0) p[(arg / 3) % 6] ^= 1;                    /* magic */
      else if (arg % 3 == 1) p[32 + (arg / 3) % 16] ^= 1 + (arg / 48) % 7;   /* format, size of an index */
      else snprintf ((char *) p, 8, "p%dest", P4EST_DIM == 2 ? 8 : 4);
      n = p4est_connectivity_inflate (a);
      sc_array_destroy (a);
    }
    if (rank == 0) put_conn (&pre, n ? n : o);
    h2 = n ? conn_hash (n) : 0; a2 = n ? conn_ahash (n) : 0;
    locint ("nul", n == NULL); locint ("bad", fl); locint ("h1", h1); locint ("a1", a1); locint ("h2", h2); locint ("a2", a2);
    locint ("h3", conn_hash (o)); locint ("a3", conn_ahash (o));
    locint ("eq", n ? p4est_connectivity_is_equal (o, n) : 0); locint ("eqv", n ? p4est_connectivity_is_equivalent (o, n) : 0);
    locint ("val", n ? p4est_connectivity_is_valid (n) : 0);
    locint ("at", n && n->tree_to_attr != NULL); locint ("oat", o->tree_to_attr != NULL);
    if (C[c2] && c2 != c) { p4est_connectivity_destroy (C[c2]); C[c2] = NULL; }
    if (n) { if (mode >= 8) p4est_connectivity_destroy (n); else C[c2] = n; }
    emit ("cio");
    return 1;
  }
  return 0;
}
