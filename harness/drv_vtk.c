/* graphics files: written, read back and recorded */
#include "drv.h"
#ifndef P4_TO_P8
#include <p4est_vtk.h>
#include <p4est_geometry.h>
#include <p6est.h>
#include <p6est_vtk.h>
p6est_t *drv_p6 (int s);
#else
#include <p8est_vtk.h>
#include <p8est_geometry.h>
#endif
#include <unistd.h>
#include <ctype.h>
#include <zlib.h>

/* geometry with exactly known values */
static void lin_X (p4est_geometry_t *g, p4est_topidx_t t, const double a[3], double x[3])
{ (void) g; x[0] = 2. * t + a[0]; x[1] = 3. * a[1] - a[0]; x[2] = 5. * a[2] + a[1]; }

/* element found in a file */
#define MAXARR 24
typedef struct { char sec[16], name[32], type[16], fmt[16]; int nc; long n; double *v; } arr_t;
typedef struct { int ok, np, ncell, pieces; arr_t a[MAXARR]; int na; int src[64], nsrc; } vfile_t;

static int attr (const char *tag, const char *name, char *out, size_t n)
{
  const char *p = tag; size_t l = strlen (name), i = 0;
  out[0] = 0;
  while ((p = strstr (p, name))) {
    if (isspace ((unsigned char) p[-1]) && p[l] == '=' && p[l + 1] == '"') {
      for (p += l + 2; *p && *p != '"' && i + 1 < n; ++p) out[i++] = *p;
      out[i] = 0;
      return 1;
    }
    ++p;
  }
  return 0;
}
static int b64v (int c)
{ return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
/* decode n characters; returns number of bytes or -1 */
static long unb64 (const char *s, long n, unsigned char *out)
{
  long i, m = 0;
  if (n % 4) return -1;
  for (i = 0; i < n; i += 4) {
    int a = b64v (s[i]), b = b64v (s[i + 1]), c = b64v (s[i + 2]), d = b64v (s[i + 3]);
    if (a < 0 || b < 0) return -1;
    out[m++] = (unsigned char) (a << 2 | b >> 4);
    if (c < 0) { if (s[i + 2] != '=' || s[i + 3] != '=' || i + 4 != n) return -1; break; }
    out[m++] = (unsigned char) (b << 4 | c >> 2);
    if (d < 0) { if (s[i + 3] != '=' || i + 4 != n) return -1; break; }
    out[m++] = (unsigned char) (c << 6 | d);
  }
  return m;
}
/* the data of one array: header of 32 bit numbers, then the compressed blocks */
static unsigned char *payload (const char *s, long n, long *bytes)
{
  unsigned char h3[12], *hb, *db, *out; uint32_t h[3], *cs; long hl, m, tot = 0, i, o = 0, z = 0;
  *bytes = -1;
  if (n < 16 || unb64 (s, 16, h3) != 12) return NULL;
  memcpy (h, h3, 12);
  if (h[0] > 100000) return NULL;
  hl = 4 * ((4L * (3 + (long) h[0]) + 2) / 3);
  if (hl > n) return NULL;
  hb = (unsigned char *) malloc (hl + 4); db = (unsigned char *) malloc (n + 4);
  if (unb64 (s, hl, hb) != 4L * (3 + (long) h[0])) { free (hb); free (db); return NULL; }
  m = unb64 (s + hl, n - hl, db);
  cs = (uint32_t *) (hb + 12);
  tot = h[0] == 0 ? 0 : (long) h[1] * (h[0] - (h[2] ? 1 : 0)) + h[2];
  if (m < 0 || tot > 100000000L) { free (hb); free (db); return NULL; }
  out = (unsigned char *) malloc (tot + 8);
  for (i = 0; i < (long) h[0]; ++i) {
    uLongf want = (i == (long) h[0] - 1 && h[2]) ? h[2] : h[1], got = want;
    if (z + (long) cs[i] > m || uncompress (out + o, &got, db + z, cs[i]) != Z_OK || got != want) { free (hb); free (db); free (out); return NULL; }
    z += cs[i]; o += (long) want;
  }
  if (z != m) { free (hb); free (db); free (out); return NULL; }
  free (hb); free (db);
  *bytes = tot;
  return out;
}
static int esize (const char *t)
{ return !strcmp (t, "Float32") || !strcmp (t, "Int32") || !strcmp (t, "UInt32") ? 4 : !strcmp (t, "Float64") || !strcmp (t, "Int64") ? 8 : !strcmp (t, "UInt8") || !strcmp (t, "Int8") ? 1 : 0; }
static double elem (const char *t, const unsigned char *p)
{
  if (!strcmp (t, "Float32")) { float x; memcpy (&x, p, 4); return x; }
  if (!strcmp (t, "Float64")) { double x; memcpy (&x, p, 8); return x; }
  if (!strcmp (t, "Int32")) { int32_t x; memcpy (&x, p, 4); return x; }
  if (!strcmp (t, "UInt32")) { uint32_t x; memcpy (&x, p, 4); return x; }
  if (!strcmp (t, "Int64")) { int64_t x; memcpy (&x, p, 8); return (double) x; }
  if (!strcmp (t, "UInt8")) return *p;
  return (signed char) *p;
}
static char *slurp (const char *name)
{
  FILE *f = fopen (name, "rb"); char *b; long n;
  if (!f) return NULL;
  fseek (f, 0, SEEK_END); n = ftell (f); rewind (f);
  b = (char *) malloc (n + 1);
  if (fread (b, 1, n, f) != (size_t) n) n = 0;
  b[n] = 0; fclose (f);
  return b;
}
static int piece_id (const char *s, const char *base)
{ char w[128]; int p; for (p = 0; p < 64; ++p) { snprintf (w, sizeof w, "%s_%04d.vtu", base, p); if (!strcmp (s, w)) return p; } return -1; }

static int piece_any (const char *s, const char *base);
/* read an XML file of either sort */
static void vread (const char *name, const char *base, vfile_t *v)
{
  char *b = slurp (name), *p, *q, tag[1024], nm[64], st[32][64], val[128], sec[16] = ""; int d = 0, n, zc = 0;
  memset (v, 0, sizeof *v);
  v->np = v->ncell = -1;
  if (!b) return;
  v->ok = 1;
  for (p = b; (p = strchr (p, '<')); p = q + 1) {
    int close = p[1] == '/', self;
    q = strchr (p, '>');
    if (!q || q - p >= 1000) { v->ok = 0; break; }
    memcpy (tag, p, q - p); tag[q - p] = 0;
    if (p[1] == '?') continue;
    self = q[-1] == '/';
    for (n = 0; n < 63 && (isalnum ((unsigned char) p[1 + close + n])); ++n) nm[n] = p[1 + close + n];
    nm[n] = 0;
    if (close) {
      if (d == 0 || strcmp (st[d - 1], nm)) { v->ok = 0; break; }
      --d;
      continue;
    }
    if (!self) { if (d >= 31) { v->ok = 0; break; } strcpy (st[d++], nm); }
    if (!strcmp (nm, "VTKFile")) {
      zc = attr (tag, "compressor", val, sizeof val) && !strcmp (val, "vtkZLibDataCompressor");
      if (!zc || !attr (tag, "byte_order", val, sizeof val) || strcmp (val, "LittleEndian")) v->ok = 0;
    }
    else if (!strcmp (nm, "Piece")) {
      ++v->pieces;
      if (attr (tag, "Source", val, sizeof val)) { if (v->nsrc < 64) v->src[v->nsrc++] = piece_any (val, base); }
      else {
        if (attr (tag, "NumberOfPoints", val, sizeof val)) v->np = atoi (val);
        if (attr (tag, "NumberOfCells", val, sizeof val)) v->ncell = atoi (val);
      }
    }
    else if (!strcmp (nm, "DataArray") || !strcmp (nm, "PDataArray")) {
      arr_t *a = &v->a[v->na];
      const char *s0 = d >= (self ? 1 : 2) ? st[d - (self ? 1 : 2)] : "";
      if (v->na >= MAXARR) { v->ok = 0; break; }
      ++v->na;
      snprintf (a->sec, sizeof a->sec, "%.15s", s0[0] == 'P' && isupper ((unsigned char) s0[1]) ? s0 + 1 : s0);
      attr (tag, "Name", val, sizeof val); snprintf (a->name, sizeof a->name, "%.31s", val);
      attr (tag, "type", val, sizeof val); snprintf (a->type, sizeof a->type, "%.15s", val);
      attr (tag, "format", val, sizeof val); snprintf (a->fmt, sizeof a->fmt, "%.15s", val);
      a->nc = attr (tag, "NumberOfComponents", val, sizeof val) ? atoi (val) : 1;
      a->n = -1;
      if (!self) {
        char *s = q + 1, *e = strchr (s, '<'); long by, i; unsigned char *x; int es = esize (a->type);
        if (!e || strcmp (a->fmt, "binary") || !es) { v->ok = 0; continue; }
        while (s < e && isspace ((unsigned char) *s)) ++s;
        while (e > s && isspace ((unsigned char) e[-1])) --e;
        x = payload (s, e - s, &by);
        if (by < 0 || by % es) { v->ok = 0; free (x); continue; }
        a->n = by / es; a->v = (double *) malloc (sizeof (double) * (a->n + 1));
        for (i = 0; i < a->n; ++i) a->v[i] = elem (a->type, x + i * es);
        free (x);
      }
    }
  }
  (void) sec;
  if (d != 0) v->ok = 0;
  free (b);
}
static void vfree (vfile_t *v) { int i; for (i = 0; i < v->na; ++i) free (v->a[i].v); }
static void put_meta (sbuf *b, const char *key, vfile_t *v)
{
  int i;
  sb_sep (b); sb_printf (b, "\"%s\":[", key);
  for (i = 0; i < v->na; ++i) { sb_sep (b); sb_printf (b, "[\"%s\",\"%s\",\"%s\",%d]", v->a[i].sec, v->a[i].name, v->a[i].type, v->a[i].nc); }
  sb_printf (b, "]");
}
static void put_vals (const char *key, double *x, long n, double f)
{
  long i;
  sb_sep (&loc); sb_printf (&loc, "\"%s\":[", key);
  for (i = 0; i < n; ++i) { double y = x[i] * f; sb_sep (&loc); sb_printf (&loc, "%ld", y > -1e9 && y < 1e9 ? lrint (y) : 1999999999L); }
  sb_printf (&loc, "]");
}
static void put_named (const char *key, vfile_t *v, const char *name, double f)
{
  int i;
  for (i = 0; i < v->na; ++i) if (!strcmp (v->a[i].name, name)) { put_vals (key, v->a[i].v, v->a[i].n < 0 ? 0 : v->a[i].n, f); return; }
  put_vals (key, NULL, 0, 1.);
}
static sc_array_t *mkvals (long n, long salt)
{
  sc_array_t *a = sc_array_new_count (sizeof (double), (size_t) n); long i;
  for (i = 0; i < n; ++i) *(double *) sc_array_index (a, i) = (double) ((long) (hash64 (opseed + salt * 1000003 + rank * 7919L + i) % 1999) - 999);
  return a;
}

/* the files that list the pieces; names with or without the directory */
static int piece_any (const char *s, const char *base)
{ const char *t = strrchr (s, '/'); return piece_id (t ? t + 1 : s, base); }
#ifndef P4_TO_P8
static void visit_list (const char *path, const char *base)
{
  char name[640], *b, *t; int nb2 = -1, first = 1;
  snprintf (name, sizeof name, "%s.visit", path);
  b = slurp (name); unlink (name);
  sb_sep (&pre); sb_printf (&pre, "\"vis\":[");
  if (b) for (t = strtok (b, "\n"); t; t = strtok (NULL, "\n")) {
    if (first) { if (sscanf (t, "!NBLOCKS %d", &nb2) != 1) nb2 = -1; first = 0; }
    else { sb_sep (&pre); sb_printf (&pre, "%d", piece_any (t, base)); }
  }
  free (b);
  sb_printf (&pre, "]");
  preint ("nblk", nb2);
}
/* hvtk s mode scale20 tree rank wrap nps npv: graphics of a forest of columns */
static void hvtk (void)
{
  static int serial = 0;
  int s = toki (), mode = toki (), sc = toki (), wt = toki (), wr = toki (), wrap = toki (), nps = toki (), npv = toki (), i, j, ok = 1, big = 0;
  p6est_t *f = drv_p6 (s);
  p6est_connectivity_t *c6 = f->connectivity;
  p4est_connectivity_t *c = c6->conn4;
  char path[512], base[64], name[640], nb[4][16], lists[2][64];
  sc_array_t *P[4]; double *D[4]; const char *N[4];
  long npt = 8 * (long) f->layers->elem_count;
  vfile_t v;
  if (c->num_vertices <= 0) return;
  if (mode == 0) { sc = 20; wt = wr = 1; wrap = nps = npv = 0; }
  snprintf (base, sizeof base, "hout.%d", serial++);
  snprintf (path, sizeof path, "%s/%s", scratch, base);
  lists[0][0] = lists[1][0] = 0;
  for (i = 0; i < nps + npv; ++i) {
    P[i] = mkvals (npt * (i < nps ? 1 : 3), 300 + i); D[i] = (double *) P[i]->array;
    sprintf (nb[i], i < nps ? "ps%d" : "pv%d", i < nps ? i : i - nps); N[i] = nb[i];
    if (lists[i >= nps][0]) strcat (lists[i >= nps], ",");
    strcat (lists[i >= nps], nb[i]);
  }
  if (mode == 0) p6est_vtk_write_file (f, path);
  else if (mode == 1) switch (nps + npv) {
    case 0: p6est_vtk_write_all (f, sc / 20., wt, wr, wrap, nps, npv, path); break;
    case 1: p6est_vtk_write_all (f, sc / 20., wt, wr, wrap, nps, npv, path, N[0], D[0]); break;
    case 2: p6est_vtk_write_all (f, sc / 20., wt, wr, wrap, nps, npv, path, N[0], D[0], N[1], D[1]); break;
    case 3: p6est_vtk_write_all (f, sc / 20., wt, wr, wrap, nps, npv, path, N[0], D[0], N[1], D[1], N[2], D[2]); break;
    default: p6est_vtk_write_all (f, sc / 20., wt, wr, wrap, nps, npv, path, N[0], D[0], N[1], D[1], N[2], D[2], N[3], D[3]); break;
  }
  else {
    ok = !p6est_vtk_write_header (f, sc / 20., wt, wr, wrap, nps ? lists[0] : NULL, npv ? lists[1] : NULL, path);
    for (i = 0; i < nps + npv; ++i)
      ok = ok && !(i < nps ? p6est_vtk_write_point_scalar (f, path, N[i], D[i]) : p6est_vtk_write_point_vector (f, path, N[i], D[i]));
    ok = ok && !p6est_vtk_write_footer (f, path);
  }
  PMPI_Barrier (comm);
  preint ("s", s); preint ("mode", mode); preint ("sc", sc); preint ("wt", wt); preint ("wr", wr); preint ("wrap", wrap);
  preint ("nps", nps); preint ("npv", npv);
  if (rank == 0) {
    const double *lo = c->vertices, *hi = c6->top_vertices;
    for (i = 0; i < 3 * c->num_vertices; ++i) {
      double y = hi ? hi[i] : lo[i] + c6->height[i % 3];
      if (!(lo[i] > -10. && lo[i] < 10. && y > -10. && y < 10.)) big = 1;
    }
    sb_sep (&pre); sb_printf (&pre, "\"tv\":[");
    if (!big) for (i = 0; i < c->num_trees; ++i) {
      sb_sep (&pre); sb_printf (&pre, "[");
      for (j = 0; j < 8; ++j) {
        long at = 3 * (long) c->tree_to_vertex[4 * i + j % 4]; double w[3]; int d;
        for (d = 0; d < 3; ++d) w[d] = j < 4 ? lo[at + d] : hi ? hi[at + d] : lo[at + d] + c6->height[d];
        sb_sep (&pre); sb_printf (&pre, "[%ld,%ld,%ld]", lrint (w[0] * 10000.), lrint (w[1] * 10000.), lrint (w[2] * 10000.));
      }
      sb_printf (&pre, "]");
    }
    sb_printf (&pre, "]");
    snprintf (name, sizeof name, "%s.pvtu", path);
    vread (name, base, &v); unlink (name);
    preint ("mok", v.ok);
    sb_sep (&pre); sb_printf (&pre, "\"src\":[");
    for (i = 0; i < v.nsrc; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", v.src[i]); }
    sb_printf (&pre, "]");
    put_meta (&pre, "pm", &v);
    vfree (&v);
    visit_list (path, base);
  }
  snprintf (name, sizeof name, "%s_%04d.vtu", path, rank);
  vread (name, base, &v); unlink (name);
  locint ("ok", ok && v.ok && v.pieces == 1); locint ("np", v.np); locint ("nc", v.ncell);
  put_meta (&loc, "am", &v);
  put_named ("pos", &v, "Position", 10000.);
  put_named ("conn", &v, "connectivity", 1.); put_named ("off", &v, "offsets", 1.); put_named ("typ", &v, "types", 1.);
  put_named ("tid", &v, "treeid", 1.); put_named ("rk", &v, "mpirank", 1.);
  for (i = 0; i < 2; ++i) {
    sb_sep (&loc); sb_printf (&loc, i ? "\"pv\":[" : "\"ps\":[");
    for (j = i ? nps : 0; j < (i ? nps + npv : nps); ++j) {
      sb_sep (&loc); sb_printf (&loc, "{");
      put_named ("f", &v, nb[j], 1.);
      put_vals ("g", D[j], (long) P[j]->elem_count, 1.);
      sb_printf (&loc, "}");
    }
    sb_printf (&loc, "]");
  }
  for (i = 0; i < nps + npv; ++i) sc_array_destroy (P[i]);
  vfree (&v);
  emit ("hvtk");
}
#endif

int op_vtk (const char *k)
{
#ifndef P4_TO_P8
  if (!strcmp (k, "hvtk")) { hvtk (); return 1; }
#endif
  if (!strcmp (k, "vtk")) {
    /* vtk s mode scale20 continuous geom tree level rank wrap ncs ncv nps npv n1d va */
    static int serial = 0;
    int s = toki (), mode = toki (), sc = toki (), co = toki (), gm = toki (), wt = toki (), wl = toki (), wr = toki (), wrap = toki ();
    int ncs = toki (), ncv = toki (), nps = toki (), npv = toki (), n1 = toki (), va = toki (), i, j, ok = 1, big = 0;
    p4est_t *f = drv_forest (s);
    p4est_connectivity_t *c = f->connectivity;
    p4est_geometry_t *g = NULL, lin;
    p4est_vtk_context_t *x = NULL;
    char path[512], base[64], name[640], key[16];
    const char *N[8]; char nb[8][16]; sc_array_t *A[8], *P[8], *gp = NULL;
    long nloc = f->local_num_quadrants, npt;
    vfile_t v;
    if (c->num_vertices <= 0 && gm < 2) return 1;
    if (mode == 0) { sc = 19; co = 1; wt = wl = wr = 1; wrap = ncs = ncv = nps = npv = 0; }
    if (mode != 2) n1 = 2;
    snprintf (base, sizeof base, "out.%d", serial++);
    snprintf (path, sizeof path, "%s/%s", scratch, base);
    memset (&lin, 0, sizeof lin); lin.name = "lin"; lin.X = lin_X;
    if (gm == 1) g = p4est_geometry_new_connectivity (c);
    if (gm == 2) g = &lin;
    for (npt = nloc, i = 0; i < P4EST_DIM; ++i) npt *= n1;
    for (i = 0; i < ncs + ncv; ++i) A[i] = mkvals (nloc * (i < ncs ? 1 : 3), 1 + i);
    for (i = 0; i < nps + npv; ++i) P[i] = mkvals (npt * (i < nps ? 1 : 3), 100 + i);
    if (mode == 0) p4est_vtk_write_file (f, g, path);
    else {
      x = p4est_vtk_context_new (f, path);
      if (gm) p4est_vtk_context_set_geom (x, g);
      if (sc > 0) p4est_vtk_context_set_scale (x, sc / 20.); else sc = 19;
      if (co >= 0) p4est_vtk_context_set_continuous (x, co); else co = 0;
      if (mode == 2) {
        gp = mkvals (npt * P4EST_DIM, 77);
        x = p4est_vtk_write_header_ho (x, gp, n1);
      }
      else x = p4est_vtk_write_header (x);
      if (x) {
        for (i = 0; i < ncs + ncv; ++i) { sprintf (nb[i], i < ncs ? "cs%d" : "cv%d", i < ncs ? i : i - ncs); N[i] = nb[i]; }
        if (!va) x = p4est_vtk_write_cell_data (x, wt, wl, wr, wrap, ncs, ncv, N, A);
        else switch (ncs + ncv) {
          case 0: x = p4est_vtk_write_cell_dataf (x, wt, wl, wr, wrap, ncs, ncv, x); break;
          case 1: x = p4est_vtk_write_cell_dataf (x, wt, wl, wr, wrap, ncs, ncv, N[0], A[0], x); break;
          case 2: x = p4est_vtk_write_cell_dataf (x, wt, wl, wr, wrap, ncs, ncv, N[0], A[0], N[1], A[1], x); break;
          case 3: x = p4est_vtk_write_cell_dataf (x, wt, wl, wr, wrap, ncs, ncv, N[0], A[0], N[1], A[1], N[2], A[2], x); break;
          default: x = p4est_vtk_write_cell_dataf (x, wt, wl, wr, wrap, ncs, ncv, N[0], A[0], N[1], A[1], N[2], A[2], N[3], A[3], x); break;
        }
      }
      if (x) {
        for (i = 0; i < nps + npv; ++i) { sprintf (nb[i], i < nps ? "ps%d" : "pv%d", i < nps ? i : i - nps); N[i] = nb[i]; }
        switch (nps + npv) {
          case 0: x = p4est_vtk_write_point_dataf (x, nps, npv, x); break;
          case 1: x = p4est_vtk_write_point_dataf (x, nps, npv, N[0], P[0], x); break;
          case 2: x = p4est_vtk_write_point_dataf (x, nps, npv, N[0], P[0], N[1], P[1], x); break;
          case 3: x = p4est_vtk_write_point_dataf (x, nps, npv, N[0], P[0], N[1], P[1], N[2], P[2], x); break;
          default: x = p4est_vtk_write_point_dataf (x, nps, npv, N[0], P[0], N[1], P[1], N[2], P[2], N[3], P[3], x); break;
        }
      }
      ok = x != NULL && p4est_vtk_write_footer (x) == 0;
    }
    if (gm == 1) p4est_geometry_destroy (g);
    PMPI_Barrier (comm);
    preint ("s", s); preint ("mode", mode); preint ("sc", sc); preint ("co", co); preint ("gm", gm);
    preint ("wt", wt); preint ("wl", wl); preint ("wr", wr); preint ("wrap", wrap);
    preint ("ncs", ncs); preint ("ncv", ncv); preint ("nps", nps); preint ("npv", npv); preint ("n1", n1);
    if (rank == 0) {
      char *b; int nb2 = -1, first = 1;
      for (i = 0; i < 3 * c->num_vertices; ++i) if (!(c->vertices[i] > -10. && c->vertices[i] < 10.)) big = 1;
      sb_sep (&pre); sb_printf (&pre, "\"tv\":[");
      if (!big && c->num_vertices > 0) for (i = 0; i < c->num_trees; ++i) {
        sb_sep (&pre); sb_printf (&pre, "[");
        for (j = 0; j < P4EST_CHILDREN; ++j) {
          double *w = &c->vertices[3 * c->tree_to_vertex[i * P4EST_CHILDREN + j]];
          sb_sep (&pre); sb_printf (&pre, "[%ld,%ld,%ld]", lrint (w[0] * 10000.), lrint (w[1] * 10000.), lrint (w[2] * 10000.));
        }
        sb_printf (&pre, "]");
      }
      sb_printf (&pre, "]");
      snprintf (name, sizeof name, "%s.pvtu", path);
      vread (name, base, &v); unlink (name);
      preint ("mok", v.ok);
      sb_sep (&pre); sb_printf (&pre, "\"src\":[");
      for (i = 0; i < v.nsrc; ++i) { sb_sep (&pre); sb_printf (&pre, "%d", v.src[i]); }
      sb_printf (&pre, "]");
      put_meta (&pre, "pm", &v);
      vfree (&v);
      snprintf (name, sizeof name, "%s.visit", path);
      b = slurp (name); unlink (name);
      sb_sep (&pre); sb_printf (&pre, "\"vis\":[");
      if (b) {
        char *t = strtok (b, "\n");
        for (; t; t = strtok (NULL, "\n")) {
          if (first) { if (sscanf (t, "!NBLOCKS %d", &nb2) != 1) nb2 = -1; first = 0; }
          else { sb_sep (&pre); sb_printf (&pre, "%d", piece_id (t, base)); }
        }
        free (b);
      }
      sb_printf (&pre, "]");
      preint ("nblk", nb2);
    }
    snprintf (name, sizeof name, "%s_%04d.vtu", path, rank);
    vread (name, base, &v); unlink (name);
    locint ("ok", ok && v.ok && v.pieces == 1); locint ("np", v.np); locint ("nc", v.ncell);
    put_meta (&loc, "am", &v);
    put_named ("pos", &v, "Position", 10000.);
    put_named ("conn", &v, "connectivity", 1.); put_named ("off", &v, "offsets", 1.); put_named ("typ", &v, "types", 1.);
    put_named ("tid", &v, "treeid", 1.); put_named ("lvl", &v, "level", 1.); put_named ("rk", &v, "mpirank", 1.);
    for (i = 0; i < 4; ++i) {
      static const char *pf[4] = {"cs", "cv", "ps", "pv"}; int cnt[4]; char kk[16];
      cnt[0] = ncs; cnt[1] = ncv; cnt[2] = nps; cnt[3] = npv;
      sb_sep (&loc); sb_printf (&loc, "\"%s\":[", pf[i]);
      for (j = 0; j < cnt[i]; ++j) {
        sc_array_t *G = i < 2 ? A[(i == 1 ? ncs : 0) + j] : P[(i == 3 ? nps : 0) + j];
        snprintf (key, sizeof key, "%s%d", pf[i], j);
        sb_sep (&loc); sb_printf (&loc, "{");
        snprintf (kk, sizeof kk, "f"); put_named (kk, &v, key, 1.);
        put_vals ("g", (double *) G->array, (long) G->elem_count, 1.);
        sb_printf (&loc, "}");
      }
      sb_printf (&loc, "]");
    }
    put_vals ("gp", gp ? (double *) gp->array : NULL, gp ? (long) gp->elem_count : 0, 10000.);
    for (i = 0; i < ncs + ncv; ++i) sc_array_destroy (A[i]);
    for (i = 0; i < nps + npv; ++i) sc_array_destroy (P[i]);
    if (gp) sc_array_destroy (gp);
    vfree (&v);
    emit ("vtk");
    return 1;
  }
  return 0;
}
