/* quadrant algebra: calls on structured random quadrants, each recorded as
 * [name, [quadrants in], [numbers in], [quadrants out], [numbers out]] */
#include "drv.h"

typedef p4est_quadrant_t Q;
typedef p4est_qcoord_t qc_t;
static sbuf s_in, s_i, s_o, s_r;
static const char *cname;
static int kept;                /* user data of outputs untouched */
#define UD 4711

static void begin (const char *n) { cname = n; sb_reset (&s_in); sb_reset (&s_i); sb_reset (&s_o); sb_reset (&s_r); }
static void qi (const Q *q) { put_quad (&s_in, 0, q); }
static void qit (int t, const Q *q) { put_quad (&s_in, t, q); }
static void qo (const Q *q) { put_quad (&s_o, 0, q); }
static void ii (int v) { sb_sep (&s_i); sb_printf (&s_i, "%d", v); }
static void ri (int v) { sb_sep (&s_r); sb_printf (&s_r, "%d", v); }
static void co (const qc_t c[])
{ Q q; memset (&q, 0, sizeof q); q.level = P4EST_MAXLEVEL; q.x = c[0]; q.y = c[1];
#ifdef P4_TO_P8
  q.z = c[2];
#endif
  qo (&q); }
static void end (void)
{
  sb_sep (&pre);
  sb_printf (&pre, "[\"%s\",[%.*s],[%.*s],[%.*s],[%.*s]]", cname, (int) s_in.n, s_in.s ? s_in.s : "", (int) s_i.n, s_i.s ? s_i.s : "",
             (int) s_o.n, s_o.s ? s_o.s : "", (int) s_r.n, s_r.s ? s_r.s : "");
}
static int sgn (int v) { return v < 0 ? -1 : v > 0; }
static int imin (int a, int b) { return a < b ? a : b; }
static int bo (int v) { return v != 0; }
static int rn (int n) { return (int) ((rnd () >> 20) % (uint64_t) n); }
static qc_t *cp (Q *q, int a) { return a == 0 ? &q->x : a == 1 ? &q->y :
#ifdef P4_TO_P8
  &q->z;
#else
  &q->y;
#endif
}
static qc_t cv (const Q *q, int a) { return *cp ((Q *) q, a); }
static void fresh (Q *q) { memset (q, 0, sizeof *q); q->p.user_long = UD; }
static void chk (Q *q) { if (q->p.user_long != UD) kept = 0; }

/* a random valid quadrant */
static int rlevel (void)
{
  switch (rn (4)) {
  case 0: return rn (4);
  case 1: return P4EST_QMAXLEVEL - rn (3);
  case 2: return 2 + rn (5);
  default: return rn (P4EST_QMAXLEVEL + 1);
  }
}
static void rquad (Q *q, int l)
{
  int a, m = rn (4);
  uint32_t mask = (uint32_t) rnd () & (P4EST_ROOT_LEN - 1);
  fresh (q);
  q->level = (int8_t) l;
  for (a = 0; a < P4EST_DIM; ++a) {
    uint32_t v = (uint32_t) rnd () & (P4EST_ROOT_LEN - 1);
    if (m == 1) v = rn (2) ? 0 : P4EST_ROOT_LEN - 1;
    else if (m == 2) { v = (rn (2) ? 0 : P4EST_ROOT_LEN - 1); v ^= (uint32_t) 1 << rn (30); if (rn (2)) v ^= (uint32_t) 1 << rn (30); }
    else if (m == 3) v = mask ^ (rn (2) ? 0 : (uint32_t) 1 << rn (30));
    *cp (q, a) = (qc_t) (v & ~((uint32_t) P4EST_QUADRANT_LEN (l) - 1));
  }
}
static void anc (const Q *p, int l, Q *r)
{ int a; Q s = *p; const Q *q = &s; fresh (r); r->level = (int8_t) l; for (a = 0; a < P4EST_DIM; ++a) *cp (r, a) = cv (q, a) & ~((qc_t) P4EST_QUADRANT_LEN (l) - 1); }
static void desc (const Q *p, int l, Q *r)
{
  int a, m = rn (3);
  Q s = *p; const Q *q = &s;
  qc_t d = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (l);
  fresh (r); r->level = (int8_t) l;
  for (a = 0; a < P4EST_DIM; ++a)
    *cp (r, a) = cv (q, a) + (m == 0 ? d * rn (2) : m == 1 ? ((qc_t) rnd () & d) : (rn (4) ? d : ((qc_t) rnd () & d)));
}
static int inroot (const Q *q) { int a; for (a = 0; a < P4EST_DIM; ++a) if (cv (q, a) < 0 || cv (q, a) >= P4EST_ROOT_LEN) return 0; return 1; }
/* r related to q, valid */
static void rel (const Q *p, Q *r)
{
  int a, m = rn (11);
  Q t, s = *p; const Q *q = &s;
  fresh (r);
  switch (m) {
  case 0: *r = *q; break;
  case 1: anc (q, rn (q->level + 1), r); break;
  case 2: desc (q, q->level + rn (P4EST_QMAXLEVEL - q->level + 1), r); break;
  case 3: desc (q, imin (P4EST_QMAXLEVEL, q->level + 1 + rn (2)), r); break;
  case 4: case 5:
    if (q->level > 0) { anc (q, q->level - 1, &t); desc (&t, q->level, r); }
    else *r = *q;
    break;
  case 6: case 7: case 8:
    t = *q;
    if (m == 8 && q->level > 0) anc (q, q->level - 1, &t);
    for (a = 0; a < P4EST_DIM; ++a) *cp (&t, a) += (rn (3) - 1) * P4EST_QUADRANT_LEN (t.level);
    if (!inroot (&t)) { *r = *q; break; }
    if (rn (2)) *r = t; else desc (&t, imin (P4EST_QMAXLEVEL, t.level + rn (4)), r);
    break;
  case 9:                      /* same corner, other level */
    *r = *q; { int l = q->level; qc_t o = 0; for (a = 0; a < P4EST_DIM; ++a) o |= cv (q, a);
      while (l > 0 && !(o & ((qc_t) P4EST_QUADRANT_LEN (l - 1) - 1))) --l;
      r->level = (int8_t) (l + rn (P4EST_QMAXLEVEL - l + 1)); }
    break;
  default: rquad (r, rlevel ()); break;
  }
  r->p.user_long = UD;
}
/* move q outside of the root, extended */
static void extend (Q *q)
{
  int a, k, b;
  qc_t h = P4EST_QUADRANT_LEN (q->level);
  for (a = 0; a < P4EST_DIM; ++a) {
    k = rn (6);
    b = (int) cv (q, a);
    if (k == 0) *cp (q, a) = -h;
    else if (k == 1) *cp (q, a) = P4EST_ROOT_LEN;
    else if (k == 2) *cp (q, a) = b - P4EST_ROOT_LEN;
    else if (k == 3) *cp (q, a) = b + P4EST_ROOT_LEN;
  }
}
static void shiftboth (Q *q, Q *r)
{ int a, k; for (a = 0; a < P4EST_DIM; ++a) { k = rn (3) - 1; *cp (q, a) += k * P4EST_ROOT_LEN; *cp (r, a) += k * P4EST_ROOT_LEN; } }
static void getc3 (const Q *q, qc_t c[]) { int a; for (a = 0; a < P4EST_DIM; ++a) c[a] = cv (q, a); }
static void rnode (Q *q, int clamp)
{
  int a;
  Q b;
  rquad (&b, P4EST_QMAXLEVEL);
  *q = b; q->level = P4EST_MAXLEVEL;
  for (a = 0; a < P4EST_DIM; ++a) { int k = rn (5); if (k == 0) *cp (q, a) = 0; else if (k == 1) *cp (q, a) = P4EST_ROOT_LEN - (clamp ? 1 : 0); }
}

static void put_lid (sbuf *b, const p4est_lid_t *l)
{
  int i;
  uint64_t hi, lo;
#ifdef P4_TO_P8
  hi = l->high_bits; lo = l->low_bits;
#else
  hi = 0; lo = *l;
#endif
  /* as base 256 digits, lowest first */
  sb_sep (b); sb_printf (b, "[");
  for (i = 0; i < 8; ++i) { sb_sep (b); sb_printf (b, "%d", (int) ((lo >> (8 * i)) & 255)); }
  for (i = 0; P4EST_DIM == 3 && i < 8; ++i) { sb_sep (b); sb_printf (b, "%d", (int) ((hi >> (8 * i)) & 255)); }
  sb_printf (b, "]");
}
static void rlid (p4est_lid_t *l)
{
  uint64_t v[2];
  int i;
  for (i = 0; i < 2; ++i) {
    int m = rn (4);
    v[i] = rnd ();
    if (m == 0) v[i] = 0; else if (m == 1) v[i] = ~(uint64_t) 0; else if (m == 2) v[i] = ((uint64_t) 1 << rn (64)) - (uint64_t) rn (2);
  }
#ifdef P4_TO_P8
  p4est_lid_init (l, v[1], v[0]);
#else
  p4est_lid_init (l, 0, v[0]);
#endif
}
static void lid_digits (const p4est_lid_t *l, int level)
{
  int i, d;
  for (i = 1; i <= level; ++i) {
    int v = 0;
    for (d = P4EST_DIM - 1; d >= 0; --d) v = 2 * v + (p4est_lid_chk_bit (l, P4EST_DIM * (level - i) + d) ? 1 : 0);
    ri (v);
  }
}

#ifdef P4_TO_P8
#define FAM c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]
#define FAMP &c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6], &c[7]
#define LIDBITS 128
#else
#define FAM c[0], c[1], c[2], c[3]
#define FAMP &c[0], &c[1], &c[2], &c[3]
#define LIDBITS 64
#endif

#define NCALL 72
static void one (int w)
{
  Q a, b, r, r2, c[P4EST_CHILDREN], *pc[P4EST_CHILDREN], n[P4EST_HALF + 2], nur[P4EST_HALF], *t;
  qc_t x[P4EST_DIM], y[P4EST_DIM];
  int i, k, l;
  rquad (&a, rlevel ());
  if (rn (2)) { Q s; rel (&a, &s); a = s; }
  rel (&a, &b);
  fresh (&r); fresh (&r2);
  switch (w) {
  case 0: begin ("equal"); if (rn (3) == 0) extend (&b); qi (&a); qi (&b); ri (bo (p4est_quadrant_is_equal (&a, &b))); ri (bo (p4est_quadrant_equal_fn (&a, &b, NULL))); end (); break;
  case 1: case 2: case 3:
    begin ("compare");
    if (w == 2) { extend (&a); extend (&b); }
    qi (&a); qi (&b);
    ri (sgn (p4est_quadrant_compare (&a, &b))); ri (sgn (p4est_quadrant_compare (&b, &a)));
    a.p.which_tree = b.p.which_tree = 3;
    ri (sgn (p4est_quadrant_compare_piggy (&a, &b))); end (); break;
  case 4:
    begin ("piggy"); a.p.which_tree = rn (3); b.p.which_tree = rn (3);
    if (rn (3) == 0) { b = a; b.p.which_tree = rn (2); }
    qit (a.p.which_tree, &a); qit (b.p.which_tree, &b);
    ri (sgn (p4est_quadrant_compare_piggy (&a, &b))); ri (bo (p4est_quadrant_is_equal_piggy (&a, &b))); end (); break;
  case 5:
    begin ("coordcmp"); if (rn (2)) { extend (&a); extend (&b); }
    qi (&a); qi (&b); getc3 (&a, x); getc3 (&b, y); ri (sgn (p4est_coordinates_compare (x, y))); end (); break;
  case 6: begin ("localnum"); a.p.piggy3.local_num = rn (5); b.p.piggy3.local_num = rn (5); ii (a.p.piggy3.local_num); ii (b.p.piggy3.local_num); ri (sgn (p4est_quadrant_compare_local_num (&a, &b))); end (); break;
  case 7: case 8: begin ("disjoint"); qi (&a); qi (&b); ri (sgn (p4est_quadrant_disjoint (&a, &b))); ri (bo (p4est_quadrant_overlaps (&a, &b))); ri (bo (p4est_quadrant_overlaps (&b, &a))); end (); break;
  case 9: begin ("hash"); r = a; r.p.user_long = 99; r.pad8 = 5; qi (&a); ri (p4est_quadrant_hash_fn (&a, NULL) == p4est_quadrant_hash_fn (&r, NULL)); { sc_rand_state_t s1, s2; p4est_quadrant_srand (&a, &s1); p4est_quadrant_srand (&r, &s2); ri (s1 == s2); } end (); break;
  case 10:
    if (a.level == 0) { one (11); return; }
    begin ("childid"); l = 1 + rn (a.level); if (rn (3) == 0) extend (&a); qi (&a); ii (l); ri (p4est_quadrant_child_id (&a)); ri (p4est_quadrant_ancestor_id (&a, l)); end (); break;
  case 11: case 12: case 13:
    begin ("position"); if (w > 11) extend (&a); qi (&a);
    ri (bo (p4est_quadrant_is_inside_root (&a))); ri (bo (p4est_quadrant_is_inside_3x3 (&a))); ri (bo (p4est_quadrant_is_outside_face (&a))); ri (bo (p4est_quadrant_is_outside_corner (&a)));
#ifdef P4_TO_P8
    ri (bo (p8est_quadrant_is_outside_edge (&a))); k = -1; ri (bo (p8est_quadrant_is_outside_edge_extra (&a, &k))); ri (k);
#endif
    end (); break;
  case 14: case 15:
    begin ("node"); k = rn (2); rnode (&a, k);
    if (rn (3) == 0) { i = rn (P4EST_DIM); *cp (&a, i) += rn (3) - 1; }
    if (rn (6) == 0) a.level = 29;
    qi (&a); ri (bo (p4est_quadrant_is_node (&a, 0))); ri (bo (p4est_quadrant_is_node (&a, 1)));
    getc3 (&a, x); ri (bo (p4est_coordinates_is_inside_root (x))); end (); break;
  case 16: case 17: case 18:
    begin ("valid"); l = a.level;
    if (rn (2)) extend (&a);
    if (rn (3) == 0) { i = rn (P4EST_DIM); if (cv (&a, i) < P4EST_ROOT_LEN) *cp (&a, i) += 1 << rn (30 - l + 1 < 30 ? 30 - l + 1 : 29); }
    if (rn (4) == 0) a.level = (int8_t) (rn (35) - 2);
    if (rn (6) == 0) *cp (&a, rn (P4EST_DIM)) = P4EST_ROOT_LEN;
    qi (&a); ri (bo (p4est_quadrant_is_valid (&a))); ri (bo (p4est_quadrant_is_extended (&a)));
    getc3 (&a, x); l = rn (34) - 1; ii (l); ri (bo (p4est_coordinates_is_valid (x, l))); end (); break;
  case 19: case 20:
    begin ("sibling2"); if (w == 20) shiftboth (&a, &b);
    qi (&a); qi (&b); ri (bo (p4est_quadrant_is_sibling (&a, &b))); ri (bo (p4est_quadrant_is_sibling_D (&a, &b))); end (); break;
  case 21: case 22: case 23:
    l = a.level; if (l == P4EST_QMAXLEVEL) anc (&a, --l, &a);
    for (i = 0; i < P4EST_CHILDREN; ++i) { fresh (&c[i]); p4est_quadrant_child (&a, &c[i], i); pc[i] = &c[i]; }
    k = rn (P4EST_CHILDREN);
    switch (rn (7)) {
    case 0: r = c[0]; c[0] = c[k]; c[k] = r; break;
    case 1: c[k] = c[(k + 1) % P4EST_CHILDREN]; break;
    case 2: if (c[k].level < P4EST_QMAXLEVEL) c[k].level++; break;
    case 3: c[k] = b; break;
    case 4: *cp (&c[k], rn (P4EST_DIM)) ^= P4EST_QUADRANT_LEN (rn (c[k].level + 1)) & (P4EST_ROOT_LEN - 1); break;
    default: break;
    }
    begin ("family"); for (i = 0; i < P4EST_CHILDREN; ++i) qi (&c[i]);
    ri (bo (p4est_quadrant_is_family (FAMP))); ri (bo (p4est_quadrant_is_familyv (c))); ri (bo (p4est_quadrant_is_familypv (pc))); end (); break;
  case 24: case 25: case 26: case 27:
    begin ("related"); if (w == 25) shiftboth (&a, &b);
    qi (&a); qi (&b);
    ri (bo (p4est_quadrant_is_parent (&a, &b))); ri (bo (p4est_quadrant_is_parent_D (&a, &b))); ri (bo (p4est_quadrant_is_ancestor (&a, &b))); ri (bo (p4est_quadrant_is_ancestor_D (&a, &b)));
    ri (bo (p4est_quadrant_is_parent (&b, &a))); ri (bo (p4est_quadrant_is_ancestor (&b, &a))); end (); break;
  case 28: case 29: case 30:
    if (rn (2) && a.level > 0 && rn (4)) {      /* a real successor or something close */
      Q s; l = 1 + rn (a.level); anc (&a, l, &s); k = p4est_quadrant_child_id (&s);
      if (k + 1 < P4EST_CHILDREN) { p4est_quadrant_last_descendant (&s, &a, imin (P4EST_QMAXLEVEL, l + rn (4))); anc (&s, l - 1, &r); p4est_quadrant_child (&r, &r2, k + 1); p4est_quadrant_first_descendant (&r2, &b, imin (P4EST_QMAXLEVEL, l + rn (4))); if (rn (4) == 0) rel (&b, &b); }
    }
    begin ("next"); qi (&a); qi (&b); ri (bo (p4est_quadrant_is_next (&a, &b))); ri (bo (p4est_quadrant_is_next_D (&a, &b))); end (); break;
  case 31: case 32: case 33: {
    p4est_tree_t tr; Q f, e;
    memset (&tr, 0, sizeof tr); sc_array_init (&tr.quadrants, sizeof (Q));
    rel (&a, &f); rel (rn (2) ? &a : &b, &e);
    if (p4est_quadrant_compare (&f, &e) > 0) { r = f; f = e; e = r; }
    p4est_quadrant_first_descendant (&f, &tr.first_desc, P4EST_QMAXLEVEL); p4est_quadrant_last_descendant (rn (3) ? &e : &f, &tr.last_desc, P4EST_QMAXLEVEL);
    if (p4est_quadrant_compare (&tr.first_desc, &tr.last_desc) > 0) { r = tr.first_desc; p4est_quadrant_first_descendant (&e, &tr.first_desc, P4EST_QMAXLEVEL); p4est_quadrant_last_descendant (&e, &tr.last_desc, P4EST_QMAXLEVEL); }
    begin ("intree"); qi (&tr.first_desc); qi (&tr.last_desc); qi (&a);
    k = rn (8); ii (bo (k));
    if (k) sc_array_push (&tr.quadrants);
    ri (bo (p4est_quadrant_overlaps_tree (&tr, &a))); ri (bo (p4est_quadrant_is_inside_tree (&tr, &a)));
    ri (k ? bo (p4est_quadrant_in_range (&tr.first_desc, &tr.last_desc, &a)) : 0);
    sc_array_reset (&tr.quadrants);
    end (); break; }
  case 34: case 35: {
    Q f, e;
    desc (&a, a.level + rn (P4EST_QMAXLEVEL - a.level + 1), &f); desc (&a, a.level + rn (P4EST_QMAXLEVEL - a.level + 1), &e);
    if (rn (2)) p4est_quadrant_first_descendant (&a, &f, f.level);
    if (rn (2)) p4est_quadrant_last_descendant (&a, &e, e.level);
    if (rn (3) == 0) { shiftboth (&a, &f); getc3 (&a, x); anc (&e, e.level, &e); for (i = 0; i < P4EST_DIM; ++i) *cp (&e, i) += (x[i] >= P4EST_ROOT_LEN ? P4EST_ROOT_LEN : x[i] < 0 ? -P4EST_ROOT_LEN : 0); }
    if (p4est_quadrant_compare (&f, &e) > 0) { r = f; f = e; e = r; }
    begin ("firstlast"); qi (&f); qi (&e); qi (&a); ri (bo (p4est_quadrant_is_first_last (&f, &e, &a)));
    r = f; r.p.user_long = UD; p4est_quadrant_enlarge_first (&a, &r); chk (&r); qo (&r); r = e; r.p.user_long = UD; p4est_quadrant_enlarge_last (&a, &r); chk (&r); qo (&r); end (); break; }
  case 36: begin ("root"); p4est_quadrant_root (&r); chk (&r); qo (&r); end (); break;
  case 37: if (a.level == 0) { one (36); return; }
    begin ("ancestor"); l = rn (a.level); if (rn (3) == 0) extend (&a); qi (&a); ii (l);
    t = rn (2) ? &r : &b; if (t == &b) { b = a; b.p.user_long = UD; p4est_quadrant_ancestor (&b, l, &b); } else p4est_quadrant_ancestor (&a, l, t); chk (t); qo (t);
    if (rn (2)) { r2 = a; r2.p.user_long = UD; p4est_quadrant_parent (&r2, &r2); } else p4est_quadrant_parent (&a, &r2); chk (&r2); qo (&r2); end (); break;
  case 38: if (a.level == 0) { one (36); return; }
    begin ("sibling"); k = rn (P4EST_CHILDREN); if (rn (3) == 0) extend (&a); qi (&a); ii (k); if (rn (2)) p4est_quadrant_sibling (&a, &r, k); else { r = a; r.p.user_long = UD; p4est_quadrant_sibling (&r, &r, k); } chk (&r); qo (&r); end (); break;
  case 39: case 40:
    if (a.level == P4EST_QMAXLEVEL) a.level--, anc (&a, a.level, &a);
    begin ("children"); if (w == 40) extend (&a); qi (&a);
    for (i = 0; i < P4EST_CHILDREN; ++i) { fresh (&c[i]); pc[i] = &c[i]; }
    k = rn (4); if (rn (2)) { c[0] = a; c[0].p.user_long = UD; t = &c[0]; } else t = &a;
    if (k == 0) p4est_quadrant_children (t, FAMP); else if (k == 1) p4est_quadrant_childrenv (t, c); else if (k == 2) p4est_quadrant_childrenpv (t, pc);
    else { b = a; for (i = 0; i < P4EST_CHILDREN; ++i) p4est_quadrant_child (&b, &c[i], i); }
    for (i = 0; i < P4EST_CHILDREN; ++i) { chk (&c[i]); qo (&c[i]); } end (); break;
  case 41: case 42:
    begin ("faceneigh"); k = rn (P4EST_FACES); qi (&a); ii (k);
    if (rn (2)) p4est_quadrant_face_neighbor (&a, k, &r); else { r = a; r.p.user_long = UD; p4est_quadrant_face_neighbor (&r, k, &r); }
    chk (&r); qo (&r); end (); break;
  case 43: if (a.level == P4EST_QMAXLEVEL) { one (44); return; }
    begin ("halfface"); k = rn (P4EST_FACES); qi (&a); ii (k); memset (n, 0, sizeof n); memset (nur, 0, sizeof nur);
    p4est_quadrant_half_face_neighbors (&a, k, n, nur);
    for (i = 0; i < P4EST_HALF; ++i) qo (&n[i]);
    for (i = 0; i < P4EST_HALF; ++i) qo (&nur[i]);
    end (); break;
  case 44: begin ("allface"); k = rn (P4EST_FACES); qi (&a); ii (k); memset (n, 0, sizeof n);
    p4est_quadrant_all_face_neighbors (&a, k, n); for (i = 0; i < P4EST_HALF + 2; ++i) { if (n[i].level < 0) { n[i].x = n[i].y = -1;
#ifdef P4_TO_P8
      n[i].z = -1;
#endif
      } qo (&n[i]); } end (); break;
  case 45: begin ("cornerneigh"); k = rn (P4EST_CHILDREN); qi (&a); ii (k); if (rn (2)) p4est_quadrant_corner_neighbor (&a, k, &r); else { r = a; r.p.user_long = UD; p4est_quadrant_corner_neighbor (&r, k, &r); } chk (&r); qo (&r);
    p4est_quadrant_corner_node (&a, k, &r2); chk (&r2); qo (&r2); p4est_quadrant_corner_coordinates (&a, k, x); co (x); end (); break;
  case 46: if (a.level == P4EST_QMAXLEVEL) { one (47); return; }
    begin ("halfcorner"); k = rn (P4EST_CHILDREN); qi (&a); ii (k); p4est_quadrant_half_corner_neighbor (&a, k, &r); chk (&r); qo (&r); end (); break;
  case 47: begin ("midpoints"); k = rn (P4EST_FACES); qi (&a); ii (k); p4est_quadrant_volume_coordinates (&a, x); co (x); p4est_quadrant_face_coordinates (&a, k, x); co (x); end (); break;
  case 48:
#ifdef P4_TO_P8
    begin ("edge"); k = rn (12); qi (&a); ii (k); if (rn (2)) p8est_quadrant_edge_neighbor (&a, k, &r); else { r = a; r.p.user_long = UD; p8est_quadrant_edge_neighbor (&r, k, &r); } chk (&r); qo (&r); p8est_quadrant_edge_coordinates (&a, k, x); co (x); end (); break;
#else
    one (47); return;
#endif
  case 49: case 50: begin ("descendants"); l = a.level + rn (P4EST_QMAXLEVEL - a.level + 1); k = rn (P4EST_CHILDREN); qi (&a); ii (l); ii (k);
    p4est_quadrant_first_descendant (&a, &r, l); chk (&r); qo (&r); fresh (&r); p4est_quadrant_last_descendant (&a, &r, l); chk (&r); qo (&r); fresh (&r); p4est_quadrant_corner_descendant (&a, &r, k, l); chk (&r); qo (&r); end (); break;
  case 51: case 52: case 53:
    begin ("nca"); if (w == 52) shiftboth (&a, &b); qi (&a); qi (&b);
    k = rn (3); r = k == 0 ? a : b; r.p.user_long = UD; t = k == 2 ? &r2 : &r;
    if (k == 0) p4est_nearest_common_ancestor (&r, &b, &r); else if (k == 1) p4est_nearest_common_ancestor (&a, &r, &r); else p4est_nearest_common_ancestor (&a, &b, &r2);
    chk (t); qo (t); fresh (&c[0]); p4est_nearest_common_ancestor_D (&a, &b, &c[0]); qo (&c[0]); end (); break;
  case 54: case 55: {
    int ins = rn (2), m = rn (3);
    k = rn (P4EST_CHILDREN);
    begin ("touchcorner");
    if (m == 0) { rnode (&a, ins); }
    else if (m == 1) p4est_quadrant_transform_corner (&a, rn (3) ? k : rn (P4EST_CHILDREN), ins);
    else if (!ins) extend (&a);
    if (rn (3) == 0 && a.level <= 29 && a.level > 0) { i = rn (P4EST_DIM); if (cv (&a, i) >= P4EST_ROOT_LEN) *cp (&a, i) -= P4EST_QUADRANT_LEN (a.level); else if (cv (&a, i) < 0) *cp (&a, i) += P4EST_QUADRANT_LEN (a.level); }
    qi (&a); ii (k); ii (ins); ri (bo (p4est_quadrant_touches_corner (&a, k, ins))); end (); break; }
  case 56: {
#ifdef P4_TO_P8
    int ins = rn (2), m = rn (3), ax;
    k = rn (12); ax = k / 4;
    begin ("touchedge");
    if (m == 0) rnode (&a, ins);
    else for (i = 0; i < 3; ++i) if (i != ax && rn (6)) {
      qc_t h = P4EST_QUADRANT_LEN (a.level); int s = rn (5) ? (k >> (i == 2 || (i == 1 && ax == 2) ? 1 : 0)) & 1 : rn (2);
      *cp (&a, i) = ins ? (s ? P4EST_ROOT_LEN - h : 0) : (s ? P4EST_ROOT_LEN : -h);
    }
    qi (&a); ii (k); ii (ins); ri (bo (p8est_quadrant_touches_edge (&a, k, ins))); end (); break;
#else
    one (54); return;
#endif
  }
  case 57: case 58: if (a.level < 2) { one (59); return; }
    begin ("shiftcorner"); k = rn (P4EST_CHILDREN);
    if (rn (2)) { Q s; p4est_quadrant_root (&s); l = rn (4); p4est_quadrant_corner_descendant (&s, &r2, k, l); if (a.level >= l) desc (&r2, a.level, &a); fresh (&r2); }
    qi (&a); ii (k); p4est_quadrant_shift_corner (&a, &r, k); chk (&r); qo (&r); end (); break;
  case 59:
#ifdef P4_TO_P8
    if (a.level < 2) { one (60); return; }
    begin ("shiftedge"); k = rn (12); i = rn (2); l = rn (2);
    if (rn (2)) { Q s; int m = rn (4); p4est_quadrant_root (&s); p4est_quadrant_corner_descendant (&s, &r2, p8est_edge_corners[k][rn (2)], m); if (a.level >= m) desc (&r2, a.level, &a); fresh (&r2); }
    qi (&a); ii (k); ii (i); ii (l); fresh (&c[0]); p8est_quadrant_shift_edge (&a, &r, i ? &r2 : NULL, l ? &c[0] : NULL, k);
    chk (&r); qo (&r); if (i) { chk (&r2); qo (&r2); } if (l) { chk (&c[0]); qo (&c[0]); } end (); break;
#else
    one (60); return;
#endif
  case 60: begin ("atcorner"); k = rn (P4EST_CHILDREN); l = rn (3); i = l == 1; if (l == 2) a.level = P4EST_MAXLEVEL; qi (&a); ii (k); ii (i); p4est_quadrant_transform_corner (&a, k, i); chk (&a); qo (&a); p4est_coordinates_transform_corner (x, k); co (x); end (); break;
  case 61: case 62: {
    p4est_lid_t id;
    begin ("linear"); l = rn (P4EST_QMAXLEVEL + 1); qi (&a); ii (l); ii (P4EST_OLD_QMAXLEVEL);
    p4est_quadrant_linear_id_ext128 (&a, l, &id); lid_digits (&id, l); for (k = 0, i = P4EST_DIM * l; i < LIDBITS; ++i) k |= p4est_lid_chk_bit (&id, i); ri (bo (k));
    p4est_quadrant_set_morton_ext128 (&r, l, &id); chk (&r); qo (&r);
    if (l <= P4EST_OLD_QMAXLEVEL) {
      uint64_t u = p4est_quadrant_linear_id (&a, l); p4est_lid_t v;
      p4est_lid_set_uint64 (&v, u); ri (p4est_lid_is_equal (&v, &id));
      p4est_quadrant_set_morton (&r2, l, u); chk (&r2); qo (&r2);
    }
    end (); break; }
  case 63: case 64:
    if (a.level == 0) { one (36); return; }
    begin ("successor");
    p4est_quadrant_root (&r2); p4est_quadrant_last_descendant (&r2, &b, a.level);
    qi (&a);
    if (!p4est_quadrant_is_equal (&a, &b)) { p4est_quadrant_successor (&a, &r); chk (&r); qo (&r); }
    p4est_quadrant_first_descendant (&r2, &b, a.level); fresh (&r);
    if (!p4est_quadrant_is_equal (&a, &b)) { p4est_quadrant_predecessor (&a, &r); chk (&r); qo (&r); }
    end (); break;
  case 65: {
    Q d;
    if (a.level == P4EST_QMAXLEVEL) { one (66); return; }
    begin ("ancface"); desc (&a, a.level + 1 + rn (P4EST_QMAXLEVEL - a.level), &d); qi (&d); qi (&a); k = rn (P4EST_FACES); i = rn (P4EST_CHILDREN); ii (k); ii (i);
    ri (bo (p4est_quadrant_is_ancestor_face (&d, &a, k))); ri (bo (p4est_quadrant_is_ancestor_corner (&d, &a, i))); end (); break; }
  case 66: case 67: {
    int u0 = 0, u1 = 1;
    begin ("clamp"); rnode (&a, 0); a.p.which_tree = 2; l = rn (P4EST_QMAXLEVEL + 1); qi (&a); ii (l);
    fresh (&r); p4est_node_clamp_inside (&a, &r); qo (&r);
    fresh (&b); p4est_node_to_quadrant (&r, l, &b); qo (&b);
    if (rn (3) == 0) { Q s; rel (&b, &s); b = s; } qi (&b);
    ri (bo (p4est_quadrant_contains_node (&b, &r)));
    r2 = r; p4est_node_unclamp (&r2); qo (&r2);
    c[0] = a; c[1] = a; c[0].p.which_tree = 1; c[1].p.which_tree = 1 + rn (2); if (rn (2)) *cp (&c[1], rn (P4EST_DIM)) ^= 4; *cp (&c[1], 0) &= P4EST_ROOT_LEN - 1;
    qit (1, &c[0]); qit (c[1].p.which_tree, &c[1]);
    ri (bo (p4est_node_equal_piggy_fn (&c[0], &c[1], &u0)));
    c[2] = c[0]; c[2].p.piggy3.local_num = 77; ri (p4est_node_hash_piggy_fn (&c[0], &u0) == p4est_node_hash_piggy_fn (&c[2], &u0));
    /* clamped and unclamped versions of a node are interchangeable per the flag */
    p4est_node_clamp_inside (&c[0], &c[3]); c[3].p.which_tree = 1; ri (p4est_node_hash_piggy_fn (&c[0], &u0) == p4est_node_hash_piggy_fn (&c[2], &u0)); (void) u1;
    end (); break; }
  case 68: case 69: {
    p4est_tree_t tr; int m = 1 + rn (6); Q *p;
    memset (&tr, 0, sizeof tr); sc_array_init (&tr.quadrants, sizeof (Q));
    begin ("treeis");
    p = (Q *) sc_array_push (&tr.quadrants); *p = a;
    for (i = 1; i < m; ++i) {
      Q last = *(Q *) sc_array_index (&tr.quadrants, i - 1), s;
      s = last; s.p.user_long = UD;
      while (s.level > 0 && p4est_quadrant_child_id (&s) == P4EST_CHILDREN - 1) { anc (&s, s.level - 1, &r); s = r; }
      if (s.level == 0) break;
      k = p4est_quadrant_child_id (&s); anc (&s, s.level - 1, &r); p4est_quadrant_child (&r, &s, k + 1);
      p4est_quadrant_first_descendant (&s, &r, imin (P4EST_QMAXLEVEL, s.level + rn (3)));
      if (rn (8) == 0) { rel (&r, &s); r = s; }
      p = (Q *) sc_array_push (&tr.quadrants); *p = r;
    }
    for (i = 0; i < (int) tr.quadrants.elem_count; ++i) qi ((Q *) sc_array_index (&tr.quadrants, i));
    ri (bo (p4est_tree_is_sorted (&tr))); ri (bo (p4est_tree_is_linear (&tr))); ri (bo (p4est_tree_is_complete (&tr)));
    sc_array_reset (&tr.quadrants); end (); break; }
  default: {
    p4est_lid_t u, v, s; int sh;
    rlid (&u); rlid (&v); if (rn (4) == 0) p4est_lid_copy (&u, &v); else if (rn (4) == 0) { p4est_lid_set_one (&s); p4est_lid_add (&u, &s, &v); }
    k = rn (LIDBITS); sh = rn (5) ? rn (LIDBITS + 1) : 8 * rn (LIDBITS / 8 + 1);
    if (P4EST_DIM == 2 && sh == 64) sh = 63;
    begin ("lid"); put_lid (&s_in, &u); put_lid (&s_in, &v); ii (k); ii (sh);
    ri (sgn (p4est_lid_compare (&u, &v))); ri (bo (p4est_lid_is_equal (&u, &v))); ri (bo (p4est_lid_chk_bit (&u, k)));
    p4est_lid_add (&u, &v, &s); put_lid (&s_o, &s); p4est_lid_sub (&u, &v, &s); put_lid (&s_o, &s);
    p4est_lid_bitwise_neg (&u, &s); put_lid (&s_o, &s); p4est_lid_bitwise_or (&u, &v, &s); put_lid (&s_o, &s); p4est_lid_bitwise_and (&u, &v, &s); put_lid (&s_o, &s);
    p4est_lid_shift_right (&u, (unsigned) sh, &s); put_lid (&s_o, &s); p4est_lid_shift_left (&u, (unsigned) sh, &s); put_lid (&s_o, &s);
    s = u; p4est_lid_set_bit (&s, k); put_lid (&s_o, &s);
    s = u; p4est_lid_add_inplace (&s, &v); put_lid (&s_o, &s); s = u; p4est_lid_sub_inplace (&s, &v); put_lid (&s_o, &s);
    s = u; p4est_lid_bitwise_or_inplace (&s, &v); put_lid (&s_o, &s); s = u; p4est_lid_bitwise_and_inplace (&s, &v); put_lid (&s_o, &s);
    p4est_lid_set_zero (&s); put_lid (&s_o, &s); p4est_lid_set_one (&s); put_lid (&s_o, &s);
    end (); break; }
  }
}

int op_bits (const char *k)
{
  if (!strcmp (k, "qalg")) {
    long sd = tokl ();
    int n = toki (), i;
    rnd_seed (hash64 ((uint64_t) sd * 7 + 1));
    kept = 1;
    sb_sep (&pre); sb_printf (&pre, "\"calls\":[");
    for (i = 0; i < n; ++i) one (rn (NCALL));
    sb_printf (&pre, "],\"kept\":%d", kept);
    if (rank > 0) sb_reset (&pre);
    emit ("qalg");
    return 1;
  }
  return 0;
}
