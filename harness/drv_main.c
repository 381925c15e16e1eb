#include "drv.h"
#include <unistd.h>
#include <sys/stat.h>

p4est_connectivity_t *C[NSLOT];
fslot_t F[NSLOT];
MPI_Comm comm;
int rank, nproc, opno, caseno, cbflags;
char scratch[4096];
sbuf pre, loc, cb;
uint64_t opseed;
static FILE *outf, *progf;
static MPI_Comm comms[64];
static int worldrank, worldsize;
static char *curline, *curpos;
static int idcounter;
static uint64_t rstate;
extern int pmpi_delay;
void pmpi_seed (uint64_t s, int on);
int pmpi_pending (void);

void sb_printf (sbuf *b, const char *fmt, ...)
{
  va_list ap;
  for (;;) {
    size_t left = b->cap - b->n;
    int r;
    va_start (ap, fmt);
    r = vsnprintf (b->s ? b->s + b->n : NULL, b->s ? left : 0, fmt, ap);
    va_end (ap);
    if (b->s && (size_t) r < left) { b->n += r; return; }
    b->cap = 2 * (b->cap + r + 64);
    b->s = (char *) realloc (b->s, b->cap);
  }
}
void sb_reset (sbuf *b) { b->n = 0; sb_printf (b, "%s", ""); }
void sb_sep (sbuf *b)
{
  if (b->n > 0 && b->s[b->n - 1] != '[' && b->s[b->n - 1] != '{' && b->s[b->n - 1] != ',')
    sb_printf (b, ",");
}
uint64_t hash64 (uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
uint64_t hashq (uint64_t seed, p4est_topidx_t t, const p4est_quadrant_t *q)
{
  uint64_t h = hash64 (seed);
  h = hash64 (h ^ (uint64_t) t);
  h = hash64 (h ^ (uint64_t) q->level);
  h = hash64 (h ^ (uint64_t) q->x);
  h = hash64 (h ^ (uint64_t) q->y);
#ifdef P4_TO_P8
  h = hash64 (h ^ (uint64_t) q->z);
#endif
  return h;
}
void rnd_seed (uint64_t s) { rstate = hash64 (s * 1000003 + 17 * (rank + 1)); }
/* the same on all processes */
void rnd_same (uint64_t s) { rstate = hash64 (s * 1000003 + 5); }
uint64_t rnd (void) { rstate = hash64 (rstate); return rstate >> 8; }

const char *tok (void)
{
  char *s;
  while (*curpos == ' ') ++curpos;
  if (!*curpos) { fprintf (stderr, "DRV: missing token in '%s'\n", curline); MPI_Abort (MPI_COMM_WORLD, 9); }
  s = curpos;
  while (*curpos && *curpos != ' ') ++curpos;
  if (*curpos) *curpos++ = 0;
  return s;
}
int tok_more (void) { while (*curpos == ' ') ++curpos; return *curpos != 0; }
int toki (void) { return atoi (tok ()); }
long tokl (void) { return atol (tok ()); }

void put_quad (sbuf *b, p4est_topidx_t t, const p4est_quadrant_t *q)
{
  sb_sep (b);
#ifdef P4_TO_P8
  sb_printf (b, "[%d,%d,%d,%d,%d]", (int) t, (int) q->level, (int) q->x, (int) q->y, (int) q->z);
#else
  sb_printf (b, "[%d,%d,%d,%d]", (int) t, (int) q->level, (int) q->x, (int) q->y);
#endif
}

void emit (const char *kind)
{
  int n = (int) loc.n, i, tot = 0;
  int *cnt = NULL, *dsp = NULL;
  char *all = NULL;
  if (rank == 0) { cnt = (int *) malloc (sizeof (int) * nproc); dsp = (int *) malloc (sizeof (int) * nproc); }
  PMPI_Gather (&n, 1, MPI_INT, cnt, 1, MPI_INT, 0, comm);
  if (rank == 0) {
    for (i = 0; i < nproc; ++i) { dsp[i] = tot; tot += cnt[i]; }
    all = (char *) malloc (tot + 1);
  }
  PMPI_Gatherv (loc.s, n, MPI_CHAR, all, cnt, dsp, MPI_CHAR, 0, comm);
  if (rank == 0) {
    fprintf (outf, "{\"k\":\"%s\",\"c\":%d,\"o\":%d,\"P\":%d", kind, caseno, opno, nproc);
    if (pre.n) fprintf (outf, ",%.*s", (int) pre.n, pre.s);
    fprintf (outf, ",\"R\":[");
    for (i = 0; i < nproc; ++i)
      fprintf (outf, "%s{%.*s}", i ? "," : "", cnt[i], all + dsp[i]);
    fprintf (outf, "]}\n");
    fflush (outf);
    free (cnt); free (dsp); free (all);
  }
}

/* payload: first 4 bytes an id, the rest determined by it */
void bytes_fill (void *p, size_t n, int id)
{
  unsigned char *c = (unsigned char *) p;
  size_t i;
  if (n < 4) { memset (p, id & 0x7f, n); return; }
  memcpy (c, &id, 4);
  for (i = 4; i < n; ++i) c[i] = (unsigned char) (hash64 (id * 7919ULL + i) & 0xff);
}
int bytes_get (const void *p, size_t n)
{
  const unsigned char *c = (const unsigned char *) p;
  int id;
  size_t i;
  if (n == 0) return 0;
  if (n < 4) { for (i = 1; i < n; ++i) if (c[i] != c[0]) return -1; return c[0]; }
  memcpy (&id, c, 4);
  for (i = 4; i < n; ++i)
    if (c[i] != (unsigned char) (hash64 (id * 7919ULL + i) & 0xff)) return -1;
  return id;
}
int det;
int new_id (void) { return (opno * 8 + rank) * 4096 + 1 + (idcounter++ % 4095); }
void payload_set (p4est_t *f, p4est_quadrant_t *q, int id)
{ if (f->data_size > 0) bytes_fill (q->p.user_data, f->data_size, id); }
int payload_get (p4est_t *f, p4est_quadrant_t *q)
{ return f->data_size > 0 ? bytes_get (q->p.user_data, f->data_size) : 0; }
static int idtrim (p4est_t *f, int id) { return f->data_size > 0 && f->data_size < 4 ? (id & 0x7f) : f->data_size ? id : 0; }

void drv_init_fn (p4est_t *f, p4est_topidx_t t, p4est_quadrant_t *q)
{
  int id = det ? (int) (hashq (opno, t, q) >> 34) : new_id ();
  payload_set (f, q, id);
  sb_sep (&cb); sb_printf (&cb, "[\"i\",");
  put_quad (&cb, t, q);
  sb_printf (&cb, ",%d]", idtrim (f, id));
}
void drv_replace_fn (p4est_t *f, p4est_topidx_t t, int no,
                     p4est_quadrant_t *out[], int ni, p4est_quadrant_t *in[])
{
  int i;
  sb_sep (&cb); sb_printf (&cb, "[\"r\",[");
  for (i = 0; i < no; ++i) {
    sb_sep (&cb); sb_printf (&cb, "[");
    put_quad (&cb, t, out[i]); sb_printf (&cb, ",%d]", payload_get (f, out[i]));
  }
  sb_printf (&cb, "],[");
  { uint64_t hs = opno; for (i = 0; i < no; ++i) hs = hash64 (hs ^ payload_get (f, out[i]));
  for (i = 0; i < ni; ++i) {
    int b = payload_get (f, in[i]), id = det ? (int) (hashq (hs, t, in[i]) >> 34) : new_id ();
    payload_set (f, in[i], id);
    sb_sep (&cb); sb_printf (&cb, "[");
    put_quad (&cb, t, in[i]); sb_printf (&cb, ",%d,%d]", b, idtrim (f, id));
  } }
  sb_printf (&cb, "]]");
}

/* ------------------------------------------------------------------ */
enum { PR_NONE, PR_ALL, PR_HASH, PR_PT, PR_LT, PR_LIST, PR_BND, PR_CHILD };
void pred_parse (pred_t *p)
{
  const char *k = tok ();
  int i;
  memset (p, 0, sizeof (*p));
  p->L = 99;
  if (!strcmp (k, "none")) p->kind = PR_NONE;
  else if (!strcmp (k, "all")) { p->kind = PR_ALL; p->L = toki (); }
  else if (!strcmp (k, "h")) { p->kind = PR_HASH; p->seed = tokl (); p->pm = toki (); p->L = toki (); }
  else if (!strcmp (k, "pt")) {
    p->kind = PR_PT; p->L = toki ();
    p->list = (long *) malloc (sizeof (long) * 4);
    for (i = 0; i < 1 + P4EST_DIM; ++i) p->list[i] = tokl ();
  }
  else if (!strcmp (k, "bnd")) { p->kind = PR_BND; p->seed = toki (); p->L = toki (); }
  else if (!strcmp (k, "cid")) { p->kind = PR_CHILD; p->seed = toki (); p->L = toki (); }
  else if (!strcmp (k, "list")) {
    int w = 2 + P4EST_DIM;
    p->kind = PR_LIST; p->n = toki ();
    p->list = (long *) malloc (sizeof (long) * w * (p->n + 1));
    for (i = 0; i < p->n * w; ++i) p->list[i] = tokl ();
  }
  else { fprintf (stderr, "DRV: predicate %s\n", k); MPI_Abort (MPI_COMM_WORLD, 9); }
}
int pred_eval (pred_t *p, p4est_topidx_t t, const p4est_quadrant_t *q)
{
  int i, r = 0;
  p4est_qcoord_t h = P4EST_QUADRANT_LEN (q->level);
  if (q->level >= p->L) return 0;
  switch (p->kind) {
  case PR_ALL: r = 1; break;
  case PR_HASH: r = (int) (hashq (p->seed, t, q) % 1000) < p->pm; break;
  case PR_PT:
    r = p->list[0] == t && p->list[1] >= q->x && p->list[1] < q->x + (long) h
      && p->list[2] >= q->y && p->list[2] < q->y + (long) h;
#ifdef P4_TO_P8
    r = r && p->list[3] >= q->z && p->list[3] < q->z + (long) h;
#endif
    break;
  case PR_BND:               /* touches one face of each tree */
    {
      int f = (int) ((p->seed + t) % P4EST_FACES);
      p4est_qcoord_t c = f / 2 == 0 ? q->x : f / 2 == 1 ? q->y :
#ifdef P4_TO_P8
        q->z;
#else
        0;
#endif
      r = (f % 2) ? (c + (long) h == P4EST_ROOT_LEN) : c == 0;
    }
    break;
  case PR_CHILD: r = p4est_quadrant_child_id (q) == (int) (p->seed % P4EST_CHILDREN); break;
  case PR_LIST:
    for (i = 0; i < p->n; ++i) {
      long *l = p->list + i * (2 + P4EST_DIM);
      if (l[0] == t && l[1] == q->level && l[2] == q->x && l[3] == q->y
#ifdef P4_TO_P8
          && l[4] == q->z
#endif
        ) r = 1;
    }
    break;
  default: ;
  }
  if (r && p->budget) { if (p->budget == 1) r = 0; else --p->budget; }
  return r;
}
void pred_free (pred_t *p) { free (p->list); }

/* ------------------------------------------------------------------ */
/* full projection of the forest state */
void put_state (p4est_t *f)
{
  p4est_topidx_t t, nt = f->connectivity->num_trees;
  int i, same;
  size_t zz, gb = sizeof (p4est_gloidx_t) * (nproc + 1);
  p4est_gloidx_t *g0 = (p4est_gloidx_t *) malloc (gb);
  long *p0 = (long *) malloc (sizeof (long) * 5 * (nproc + 1));
  long *p1 = (long *) malloc (sizeof (long) * 5 * (nproc + 1));
  if (rank == 0) {
    sb_sep (&pre);
    sb_printf (&pre, "\"gfq\":[");
    for (i = 0; i <= nproc; ++i) { sb_sep (&pre); sb_printf (&pre, "%lld", (long long) f->global_first_quadrant[i]); }
    sb_printf (&pre, "],\"gfp\":[");
    for (i = 0; i <= nproc; ++i) put_quad (&pre, f->global_first_position[i].p.which_tree, &f->global_first_position[i]);
    sb_printf (&pre, "]");
    memcpy (g0, f->global_first_quadrant, gb);
  }
  for (i = 0; i <= nproc; ++i) {
    p4est_quadrant_t *q = &f->global_first_position[i];
    p1[5 * i] = q->p.which_tree; p1[5 * i + 1] = q->level; p1[5 * i + 2] = q->x; p1[5 * i + 3] = q->y;
#ifdef P4_TO_P8
    p1[5 * i + 4] = q->z;
#else
    p1[5 * i + 4] = 0;
#endif
  }
  memcpy (p0, p1, sizeof (long) * 5 * (nproc + 1));
  PMPI_Bcast (g0, (int) gb, MPI_BYTE, 0, comm);
  PMPI_Bcast (p0, 5 * (nproc + 1), MPI_LONG, 0, comm);
  same = !memcmp (g0, f->global_first_quadrant, gb) && !memcmp (p0, p1, sizeof (long) * 5 * (nproc + 1));
  free (g0); free (p0); free (p1);
  sb_sep (&loc);
  sb_printf (&loc, "\"same\":%d,\"ft\":%d,\"lt\":%d,\"lnq\":%d,\"gnq\":%lld,\"rev\":%ld,\"dsz\":%d,\"q\":[",
             same, (int) f->first_local_tree, (int) f->last_local_tree, (int) f->local_num_quadrants,
             (long long) f->global_num_quadrants, f->revision, (int) f->data_size);
  for (t = 0; t < nt; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
    for (zz = 0; zz < tr->quadrants.elem_count; ++zz)
      put_quad (&loc, t, p4est_quadrant_array_index (&tr->quadrants, zz));
  }
  sb_printf (&loc, "],\"v\":[");
  if (f->data_size > 0)
    for (t = 0; t < nt; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
      for (zz = 0; zz < tr->quadrants.elem_count; ++zz) {
        sb_sep (&loc);
        sb_printf (&loc, "%d", payload_get (f, p4est_quadrant_array_index (&tr->quadrants, zz)));
      }
    }
  sb_printf (&loc, "],\"tr\":[");
  for (t = 0; t < nt; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (f->trees, t);
    sb_sep (&loc);
    sb_printf (&loc, "[%d,%d,[", (int) tr->quadrants_offset, (int) tr->maxlevel);
    { int mx = 0;
      for (i = 0; i <= P4EST_QMAXLEVEL; ++i) if (tr->quadrants_per_level[i] != 0) mx = i + 1;
      for (i = 0; i < mx; ++i) { sb_sep (&loc); sb_printf (&loc, "%d", (int) tr->quadrants_per_level[i]); } }
    sb_printf (&loc, "],[");
    if (tr->quadrants.elem_count > 0) {
      put_quad (&loc, t, &tr->first_desc); put_quad (&loc, t, &tr->last_desc);
    }
    sb_printf (&loc, "]]");
  }
  sb_printf (&loc, "]");
}

/* ------------------------------------------------------------------ */
void p6est_cleanup (void);
static void case_cleanup (void)
{
  int i;
  ghost_cleanup ();
  wrap_cleanup ();
  p6est_cleanup ();
  for (i = 0; i < NSLOT; ++i)
    if (F[i].f) { p4est_destroy (F[i].f); F[i].f = NULL; }
  for (i = 0; i < NSLOT; ++i)
    if (C[i]) { p4est_connectivity_destroy (C[i]); C[i] = NULL; }
}

int main (int argc, char **argv)
{
  FILE *in;
  char *line = NULL;
  size_t cap = 0;
  int active = 0, i;
  const char *ds;
  if (argc < 5) { fprintf (stderr, "usage: drv script out progress scratch [maxP]\n"); return 9; }
  MPI_Init (&argc, &argv);
  PMPI_Comm_rank (MPI_COMM_WORLD, &worldrank);
  PMPI_Comm_size (MPI_COMM_WORLD, &worldsize);
  sc_init (MPI_COMM_WORLD, 0, 0, NULL, SC_LP_SILENT);
  p4est_init (NULL, SC_LP_SILENT);
  for (i = 1; i <= worldsize; ++i)
    PMPI_Comm_split (MPI_COMM_WORLD, worldrank < i ? 0 : MPI_UNDEFINED, worldrank, &comms[i]);
  snprintf (scratch, sizeof (scratch), "%s", argv[4]);
  in = fopen (argv[1], "r");
  if (!in) { perror (argv[1]); MPI_Abort (MPI_COMM_WORLD, 9); }
  if (worldrank == 0) {
    outf = fopen (argv[2], "a"); progf = fopen (argv[3], "a");
    if (!outf || !progf) { perror ("out"); MPI_Abort (MPI_COMM_WORLD, 9); }
  }
  ds = getenv ("DRV_DELAY");
  while (getline (&line, &cap, in) >= 0) {
    const char *k;
    size_t l = strlen (line);
    while (l && (line[l - 1] == '\n' || line[l - 1] == '\r')) line[--l] = 0;
    if (!l || line[0] == '#') continue;
    curline = curpos = line;
    k = tok ();
    if (!strcmp (k, "case")) {
      if (active) case_cleanup ();
      caseno = toki (); nproc = toki (); opno = 0; idcounter = 0; det = 0;
      active = nproc <= worldsize && worldrank < nproc;
      if (!active) { if (nproc > worldsize) { fprintf (stderr, "DRV: P too large\n"); MPI_Abort (MPI_COMM_WORLD, 9); } continue; }
      comm = comms[nproc];
      PMPI_Comm_rank (comm, &rank);
      opseed = hash64 (caseno * 131ULL + 7);
      pmpi_seed (ds ? hash64 (atoi (ds) + caseno * 977ULL) + rank : 0, ds != NULL);
      sb_reset (&pre); sb_reset (&loc);
      if (rank == 0) { fprintf (progf, "%d 0 case\n", caseno); fflush (progf); }
      if (tok_more ()) { const char *g = tok (); if (rank == 0) sb_printf (&pre, "\"grp\":%d", atoi (g)); }
      else if (rank == 0) sb_printf (&pre, "\"grp\":0");
      emit ("case");
      continue;
    }
    if (!active) continue;
    ++opno;
    idcounter = 0;
    sb_reset (&pre); sb_reset (&loc); sb_reset (&cb);
    rnd_seed (opseed + opno);
    if (rank == 0) { fprintf (progf, "%d %d %s\n", caseno, opno, k); fflush (progf); }
    if (!strcmp (k, "det")) { det = toki (); continue; }
    if (!strcmp (k, "seed")) { opseed = hash64 (toki () * 613ULL + 11); continue; }
    if (op_core (k) || op_conn (k) || op_struct (k) || op_search (k) || op_misc (k) || op_bits (k)) {
      if (pmpi_pending () != 0) { fprintf (stderr, "a message was never completed\n"); abort (); }
      continue;
    }
    fprintf (stderr, "DRV: unknown op %s\n", k);
    MPI_Abort (MPI_COMM_WORLD, 9);
  }
  if (active) case_cleanup ();
  if (worldrank == 0) { fprintf (progf, "-1 0 end\n"); fclose (progf); fclose (outf); }
  PMPI_Barrier (MPI_COMM_WORLD);
  MPI_Finalize ();
  return 0;
}
