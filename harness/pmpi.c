/* Schedule shaker: legal reordering and delaying of message progress through
 * the MPI profiling interface. */
#include <mpi.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
static uint64_t st; static int on;
static uint64_t nx (void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st >> 11; }
void pmpi_seed (uint64_t s, int enable) { st = s * 2654435761u + 88172645463325252ULL; if (!st) st = 1; on = enable; }
static void dly (void) { if (on && nx () % 8 == 0) usleep (nx () % 300); }

/* A send buffer belongs to MPI until the request completes: remember what was
 * in it and compare on completion.  Synchronous mode, so that nothing relies on
 * small messages being buffered. */
typedef struct { MPI_Request r; const void *b; size_t n; uint64_t h; } pend_t;
static pend_t *pd; static int npd, apd;
static uint64_t bsum (const void *b, size_t n)
{
  const unsigned char *p = (const unsigned char *) b; size_t i; uint64_t h = 1469598103934665603ULL;
  for (i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ULL;
  return h;
}
static size_t tbytes (int n, MPI_Datatype t) { int z; PMPI_Type_size (t, &z); return (size_t) n * (size_t) z; }
static void done (MPI_Request r)
{
  int i;
  if (r == MPI_REQUEST_NULL) return;
  for (i = 0; i < npd; ++i)
    if (pd[i].r == r) {
      if (bsum (pd[i].b, pd[i].n) != pd[i].h) {
        fprintf (stderr, "send buffer changed before the message was complete\n");
        abort ();
      }
      pd[i] = pd[--npd];
      return;
    }
}
int pmpi_pending (void) { return npd; }

int MPI_Isend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{
  int e;
  dly ();
  if (!on) return PMPI_Isend (b, n, t, d, tag, c, r);
  e = PMPI_Issend (b, n, t, d, tag, c, r);
  if (npd == apd) pd = (pend_t *) realloc (pd, (apd = 2 * apd + 64) * sizeof (pend_t));
  pd[npd].r = *r; pd[npd].b = b; pd[npd].n = tbytes (n, t); pd[npd].h = bsum (b, pd[npd].n); ++npd;
  return e;
}
int MPI_Send (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ dly (); return PMPI_Send (b, n, t, d, tag, c); }
int MPI_Irecv (void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r)
{
  dly ();
  if (on) memset (b, 0xa5, tbytes (n, t));
  return PMPI_Irecv (b, n, t, s, tag, c, r);
}
int MPI_Waitall (int n, MPI_Request *r, MPI_Status *s)
{ int i; dly (); if (npd) for (i = 0; i < n; ++i) done (r[i]); return PMPI_Waitall (n, r, s); }
int MPI_Wait (MPI_Request *r, MPI_Status *s)
{ dly (); done (*r); return PMPI_Wait (r, s); }
int MPI_Allgather (const void *sb, int sn, MPI_Datatype stp, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{ dly (); return PMPI_Allgather (sb, sn, stp, rb, rn, rt, c); }
int MPI_Allreduce (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ dly (); return PMPI_Allreduce (sb, rb, n, t, op, c); }

/* receive from any source: deliver in an arbitrary legal order */
int MPI_Probe (int src, int tag, MPI_Comm c, MPI_Status *s)
{
  dly ();
  if (!on || src != MPI_ANY_SOURCE) return PMPI_Probe (src, tag, c, s);
  for (;;) {
    int n, i, o, f;
    PMPI_Comm_size (c, &n);
    o = (int) (nx () % n);
    for (i = 0; i < n; ++i) {
      int r = PMPI_Iprobe ((i + o) % n, tag, c, &f, s);
      if (r != MPI_SUCCESS) return r;
      if (f) return MPI_SUCCESS;
    }
    usleep (20);
  }
}
int MPI_Iprobe (int src, int tag, MPI_Comm c, int *flag, MPI_Status *s)
{
  int n, i, o;
  if (!on || src != MPI_ANY_SOURCE) return PMPI_Iprobe (src, tag, c, flag, s);
  PMPI_Comm_size (c, &n);
  o = (int) (nx () % n);
  for (i = 0; i < n; ++i) {
    int r = PMPI_Iprobe ((i + o) % n, tag, c, flag, s);
    if (r != MPI_SUCCESS) return r;
    if (*flag) return MPI_SUCCESS;
  }
  return MPI_SUCCESS;
}
/* complete a random non-empty subset of the completed requests */
int MPI_Waitsome (int n, MPI_Request *r, int *out, int *idx, MPI_Status *s)
{
  int i, act = 0, k = 0, o;
  if (!on) return PMPI_Waitsome (n, r, out, idx, s);
  for (i = 0; i < n; ++i) act += r[i] != MPI_REQUEST_NULL;
  if (!act) { *out = MPI_UNDEFINED; return MPI_SUCCESS; }
  dly ();
  for (;;) {
    o = (int) (nx () % n);
    for (i = 0; i < n; ++i) {
      int j = (i + o) % n, f;
      if (r[j] == MPI_REQUEST_NULL) continue;
      PMPI_Request_get_status (r[j], &f, MPI_STATUS_IGNORE);
      if (f && (k == 0 || nx () % 2)) {
        done (r[j]);
        int e = PMPI_Wait (&r[j], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + k);
        if (e != MPI_SUCCESS) return e;
        idx[k++] = j;
      }
    }
    if (k) { *out = k; return MPI_SUCCESS; }
    usleep (20);
  }
}
