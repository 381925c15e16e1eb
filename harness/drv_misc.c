#include "drv.h"
int op_io (const char *k);
int op_build (const char *k);
int op_topo (const char *k);
int op_wrap (const char *k);
int op_plex (const char *k);
int op_vtk (const char *k);
int op_p6est (const char *k);
int op_misc (const char *k) { return op_io (k) || op_build (k) || op_topo (k) || op_wrap (k) || op_plex (k) || op_vtk (k) || op_p6est (k); }
