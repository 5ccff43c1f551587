/* Linear algebra: the definitions, for all real entries; dimensions are enumerated. */
#include <swiftnav/linear_algebra.h>
#include "util.h"

static void anyv(double *v, int n, const char *nm) {
  for (int i = 0; i < n; i++) v[i] = spec_any_d(nm);
}

/* ---- element-wise and bilinear operations ---- */
static void mul(u32 n, u32 m, u32 p) {
  SPEC;
  spec_begin();
  double a[n * m], b[m * p], c[n * p], s[n * m], g = spec_any_d("gamma"), d[m], t[n * m], at[n * m], cp[n * m];
  anyv(a, n * m, "a"), anyv(b, m * p, "b"), anyv(s, n * m, "s"), anyv(d, m, "d");
  LIB;
  matrix_multiply(n, m, p, a, b, c);
  SPEC;
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < p; j++) {
      double r = 0;
      for (u32 k = 0; k < m; k++) r += a[i * m + k] * b[k * p + j];
      spec_eq_d(c[i * p + j], r, "matrix product");
    }
  LIB;
  matrix_transpose(n, m, a, at);
  matrix_copy(n, m, a, cp);
  matrix_add_sc(n, m, a, s, g, t);
  matrix_multiply_diag_right(n, m, cp, d);
  SPEC;
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < m; j++) {
      spec_eq_d(at[j * n + i], a[i * m + j], "transpose");
      spec_eq_d(t[i * m + j], a[i * m + j] + g * s[i * m + j], "sum with a scaled matrix");
      spec_eq_d(cp[i * m + j], a[i * m + j] * d[j], "product with a diagonal matrix");
    }
  spec_end();
}
void h_mul(void) {
  mul(1, 1, 1), mul(1, 3, 1), mul(2, 3, 4), mul(3, 2, 2), mul(4, 3, 1), mul(3, 3, 3), mul(1, 4, 3);
}
static void mul_int(u32 n, u32 m, u32 p) {
  SPEC;
  spec_begin();
  s32 a[n * m], b[m * p], c[n * p];
  s64 x[n * m], y[m * p], z[n * p];
  for (u32 i = 0; i < n * m; i++) a[i] = spec_any_i(12, "a"), x[i] = spec_any_i(24, "x");
  for (u32 i = 0; i < m * p; i++) b[i] = spec_any_i(12, "b"), y[i] = spec_any_i(24, "y");
  LIB;
  matrix_multiply_i(n, m, p, a, b, c);
  matrix_multiply_s64(n, m, p, x, y, z);
  SPEC;
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < p; j++) {
      s32 r = 0;
      s64 q = 0;
      for (u32 k = 0; k < m; k++) r += a[i * m + k] * b[k * p + j], q += x[i * m + k] * y[k * p + j];
      spec_eq_i(c[i * p + j], r, "32 bit integer product");
      spec_eq_i(z[i * p + j], q, "64 bit integer product");
    }
  spec_end();
}
void h_mul_int(void) { mul_int(1, 1, 1), mul_int(2, 3, 2), mul_int(2, 2, 3), mul_int(3, 1, 2); }

void h_shape(void) {
  SPEC;
  double a[16], k[16];
  for (u32 n = 1; n <= 4; n++) {
    anyv(a, 16, "a");
    memcpy(k, a, sizeof(a));
    LIB;
    matrix_triu(n, a);
    SPEC;
    for (u32 i = 0; i < 16; i++) spec_eq_d(a[i], i < n * n && i % n < i / n ? 0 : k[i], "upper triangle");
    LIB;
    matrix_eye(n, a);
    SPEC;
    for (u32 i = 0; i < 16; i++) spec_eq_d(a[i], i < n * n ? i % n == i / n : k[i], "identity");
  }
  double s[6], ul[6], ab[12];
  u32 r[3], c[2];
  anyv(a, 16, "a");
  for (int i = 0; i < 3; i++) r[i] = spec_any_u(2, "row");
  for (int i = 0; i < 2; i++) c[i] = spec_any_u(2, "column");
  LIB;
  submatrix(3, 2, 4, a, r, c, s);
  SPEC;
  for (int i = 0; i < 6; i++) spec_eq_d(s[i], a[r[i / 2] * 4 + c[i % 2]], "rows and columns picked");
  LIB;
  submatrix_ul(2, 3, 4, a, ul);
  SPEC;
  for (int i = 0; i < 6; i++) spec_eq_d(ul[i], a[i / 3 * 4 + i % 3], "upper left corner");
  LIB;
  submatrix_ul(4, 3, 3, a, ab);
  SPEC;
  for (int i = 0; i < 12; i++) spec_eq_d(ab[i], a[i], "whole matrix as its upper left corner");
}

void h_vec(void) {
  SPEC;
  for (u32 n = 1; n <= 4; n++) {
    spec_begin();
    double a[n], b[n], c[n], u[n], g = spec_any_d("gamma"), dot = 0, nn = 0, sum = 0, dd = 0;
    anyv(a, n, "a"), anyv(b, n, "b");
    for (u32 i = 0; i < n; i++)
      dot += a[i] * b[i], nn += a[i] * a[i], sum += a[i], dd += (a[i] - b[i]) * (a[i] - b[i]), u[i] = a[i];
    spec_assume(nn > 0);
    LIB;
    double ld = vector_dot(n, a, b), ln = vector_norm(n, a), lm = vector_mean(n, a), le = vector_distance(n, a, b);
    SPEC;
    spec_eq_d(ld, dot, "dot product");
    spec_eq_d(ln, sqrt(nn), "norm");
    spec_eq_d(lm, sum / n, "mean");
    spec_eq_d(le, sqrt(dd), "distance");
    LIB;
    vector_add(n, a, b, c);
    SPEC;
    for (u32 i = 0; i < n; i++) spec_eq_d(c[i], a[i] + b[i], "sum");
    LIB;
    vector_subtract(n, a, b, c);
    SPEC;
    for (u32 i = 0; i < n; i++) spec_eq_d(c[i], a[i] - b[i], "difference");
    LIB;
    vector_add_sc(n, a, b, g, c);
    vector_normalize(n, u);
    SPEC;
    for (u32 i = 0; i < n; i++) {
      spec_eq_d(c[i], a[i] + g * b[i], "sum with a scaled vector");
      spec_eq_d(u[i], a[i] / sqrt(nn), "unit vector");
    }
    spec_end();
  }
  double a[3], b[3], c[3];
  anyv(a, 3, "a"), anyv(b, 3, "b");
  LIB;
  vector_cross(a, b, c);
  SPEC;
  for (int i = 0; i < 3; i++)
    spec_eq_d(c[i], a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3], "cross product");
  double x = spec_any_d("x"), y = spec_any_d("y"), t = spec_any_d("tolerance");
  LIB;
  bool w = double_within(x, y, t);
  SPEC;
  spec_eq_u(w, fabs(x - y) < t, "within a tolerance");
}

/* ---- inverses ---- */
/* determinant of the minor of the n x n matrix a without row r and column c, by expansion along the first row */
static double det(const double *a, int n);
static double minor_det(const double *a, int n, int r, int c) {
  double m[16];
  int q = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i != r && j != c) m[q++] = a[i * n + j];
  return det(m, n - 1);
}
static double det(const double *a, int n) {
  if (n == 0) return 1;
  double s = 0;
  for (int j = 0; j < n; j++) s += (j % 2 ? -1 : 1) * a[j] * minor_det(a, n, 0, j);
  return s;
}
static void inv(u32 n) {
  SPEC;
  spec_begin();
  double a[n * n], b[n * n];
  anyv(a, n * n, "a");
  double d = spec_cut(det(a, n), "det");
  spec_assume(fabs(d) >= 1e-9);
  LIB;
  int r = matrix_inverse(n, a, b);
  SPEC;
  spec_eq_i(r, 0, "regular matrix");
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++)
      spec_eq_d(b[i * n + j], ((i + j) % 2 ? -1 : 1) * minor_det(a, n, j, i) / d, "inverse");
  spec_end();
  /* the last row depends on the others */
  for (u32 l = 0; l < n; l++) {
    spec_begin();
    anyv(a, n * n, "a");
    for (u32 j = 0; j < n; j++) a[l * n + j] = 0;
    for (u32 i = 0; i < n; i++)
      if (i != l) {
        double f = spec_any_d("f");
        for (u32 j = 0; j < n; j++) a[l * n + j] += f * a[i * n + j];
      }
    LIB;
    r = matrix_inverse(n, a, b);
    SPEC;
    spec_check(r < 0, "singular matrix");
    spec_end();
  }
}
void h_inv2(void) { inv(2); }
void h_inv3(void) { inv(3); }
void h_inv4(void) { inv(4); }

/* general size: a = P L U with unit lower triangular L of entries below 1 (P: row pivots[k] becomes row k) */
static void lu(u32 n, const u32 *piv, int sing) {
  SPEC;
  spec_begin();
  double l[n * n], u[n * n], a[n * n], x[n * n], y[n * n];
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      l[i * n + j] = i > j ? spec_any_d("l") : i == j;
      u[i * n + j] = i <= j ? spec_any_d("u") : 0;
    }
  for (u32 j = 0; j < n; j++) {
    if ((int)j == sing) {
      u[j * n + j] = 0;
      for (u32 i = j + 1; i < n; i++) l[i * n + j] = 0;
    }
    double p = u[j * n + j];
    if ((int)j != sing) spec_assume(fabs(p) > 1e-9);
    for (u32 i = j + 1; i < n; i++) spec_assume(fabs(l[i * n + j] * p) < fabs(p) || (int)j == sing);
  }
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      double s = 0;
      for (u32 k = 0; k < n; k++) s += l[i * n + k] * u[k * n + j];
      a[piv[i] * n + j] = s;
    }
  LIB;
  int r = matrix_inverse(n, a, x);
  SPEC;
  if (sing >= 0) {
    spec_check(r < 0, "singular matrix");
  } else {
    spec_eq_i(r, 0, "regular matrix");
    for (u32 i = 0; i < n; i++)
      for (u32 j = 0; j < n; j++) {
        double s = 0;
        for (u32 k = 0; k < n; k++) s += u[i * n + k] * x[k * n + j];
        y[i * n + j] = s;
      }
    for (u32 i = 0; i < n; i++)
      for (u32 j = 0; j < n; j++) {
        double s = 0;
        for (u32 k = 0; k < n; k++) s += l[i * n + k] * y[k * n + j];
        spec_eq_d(s, piv[i] == j, "matrix times inverse");
      }
  }
  spec_end();
}
/* one entry of any sign in each row and column: every choice of pivot is forced */
static void monomial(u32 n, const u32 *piv) {
  SPEC;
  spec_begin();
  double a[n * n], d[n], x[n * n];
  for (u32 i = 0; i < n; i++) {
    d[i] = spec_any_d("d");
    spec_assume(fabs(d[i]) > 1e-9);
    for (u32 j = 0; j < n; j++) a[i * n + j] = j == piv[i] ? d[i] : 0;
  }
  LIB;
  int r = matrix_inverse(n, a, x);
  SPEC;
  spec_eq_i(r, 0, "regular matrix");
  if (r == 0)
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) spec_eq_d(x[j * n + i], j == piv[i] ? 1 / d[i] : 0, "inverse of a monomial matrix");
  spec_end();
}
void h_monomial(void) {
  static const u32 p[8][7] = {{1, 0, 2, 3, 4}, {0, 1, 2, 4, 3}, {1, 2, 3, 4, 0}, {4, 3, 2, 1, 0}, {4, 0, 3, 1, 2},
                              {5, 0, 1, 2, 3, 4}, {2, 0, 1, 5, 3, 4}, {6, 2, 0, 3, 1, 4, 5}};
  for (int i = 0; i < 8; i++) monomial(i < 5 ? 5 : i < 7 ? 6 : 7, p[i]);
}
void h_lu1(void) {
  u32 p[1] = {0};
  lu(1, p, -1), lu(1, p, 0);
}
void h_lu5(void) {
  u32 p[5] = {0, 1, 2, 3, 4};
  lu(5, p, -1);
}
void h_lu5_perm(void) {
  u32 p[5] = {4, 0, 3, 1, 2};
  lu(5, p, -1);
}
void h_lu5_cycle(void) {
  u32 p[5] = {1, 2, 3, 4, 0};
  lu(5, p, -1);
}
void h_lu5_sing(void) {
  u32 p[5] = {0, 1, 2, 3, 4};
  for (int k = 0; k < 5; k++) lu(5, p, k);
}
void h_lu6(void) {
  u32 p[6] = {0, 1, 2, 3, 4, 5};
  lu(6, p, -1);
}

/* ---- weighted least squares ---- */
static void wlsq(u32 n, u32 m, int wt, int want_x, int want_v) {
  SPEC;
  spec_begin();
  double a[n * m], b[n], w[n], x[m], v[m * m], nm[36], cof[36];
  anyv(a, n * m, "a"), anyv(b, n, "b"), anyv(w, n, "w");
  for (u32 i = 0; i < m; i++)
    for (u32 j = i; j < m; j++) {
      double s = 0;
      for (u32 k = 0; k < n; k++) s += a[k * m + i] * (wt ? w[k] : 1) * a[k * m + j];
      nm[i * m + j] = nm[j * m + i] = spec_cut(s, "N");
    }
  double d = spec_cut(det(nm, m), "det");
  for (u32 i = 0; i < m; i++)
    for (u32 j = 0; j < m; j++) cof[i * m + j] = spec_cut(((i + j) % 2 ? -1 : 1) * minor_det(nm, m, j, i) / d, "V");
  int reg = spec_any_u(1, "regular");
  spec_assume(reg ? fabs(d) > 1e-9 : fabs(d) < 1e-60);
  LIB;
  int r = matrix_wlsq_solve(n, m, a, b, wt ? w : NULL, want_x ? x : NULL, want_v ? v : NULL);
  SPEC;
  spec_eq_i(r, reg ? 0 : -1, "solvable");
  if (reg) {
    for (u32 i = 0; want_x && i < m; i++) {
      double s = 0;
      for (u32 k = 0; k < n; k++)
        for (u32 j = 0; j < m; j++) s += cof[i * m + j] * a[k * m + j] * (wt ? w[k] : 1) * b[k];
      spec_eq_d(x[i], s, "least squares solution");
    }
    for (u32 i = 0; want_v && i < m * m; i++) spec_eq_d(v[i], cof[i], "covariance");
  }
  spec_end();
}
void h_wlsq1(void) { wlsq(1, 1, 1, 1, 1), wlsq(3, 1, 1, 1, 1), wlsq(2, 1, 0, 1, 0); }
void h_wlsq2(void) { wlsq(2, 2, 1, 1, 1), wlsq(3, 2, 1, 1, 1), wlsq(4, 2, 0, 1, 1), wlsq(3, 2, 1, 1, 0), wlsq(3, 2, 0, 0, 1), wlsq(3, 2, 0, 0, 0); }
void h_wlsq3(void) { wlsq(4, 3, 1, 1, 1), wlsq(3, 3, 0, 1, 0); }
void h_wlsq4(void) { wlsq(5, 4, 1, 1, 1), wlsq(4, 4, 0, 1, 1), wlsq(6, 4, 0, 1, 0); }
void h_wlsq_under(void) {
  SPEC;
  for (u32 m = 2; m <= 4; m++)
    for (u32 n = 1; n < m; n++) {
      double a[n * m], b[n], w[n], x[m], v[m * m];
      anyv(a, n * m, "a"), anyv(b, n, "b"), anyv(w, n, "w");
      LIB;
      int r = matrix_wlsq_solve(n, m, a, b, w, x, v);
      SPEC;
      spec_check(r < 0, "underdetermined");
    }
}

/* ---- pseudoinverses ---- */
static void pinv(u32 n, u32 m, int wt) {
  SPEC;
  spec_begin();
  u32 q = n > m ? m : n, big = n > m ? n : m;
  double a[n * m], w[big], x[n * m], nm[36], cof[36];
  anyv(a, n * m, q == 1 ? "a" : q == 2 ? "b" : "c"), anyv(w, big, "w");
  for (u32 i = 0; i < q; i++)
    for (u32 j = i; j < q; j++) {
      double s = 0;
      for (u32 k = 0; k < big; k++)
        s += (n > m ? a[k * m + i] * a[k * m + j] : a[i * m + k] * a[j * m + k]) * (wt == 1 ? w[k] : 1);
      nm[i * q + j] = nm[j * q + i] = spec_cut(s, "N");
    }
  double d = spec_cut(det(nm, q), "det");
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) cof[i * q + j] = spec_cut(((i + j) % 2 ? -1 : 1) * minor_det(nm, q, j, i) / d, "V");
  spec_assume(fabs(d) > 1e-9);
  LIB;
  int r = n > m ? (wt == 1 ? matrix_atwaiat(n, m, a, w, x) : wt == 2 ? matrix_pseudoinverse(n, m, a, x) : matrix_ataiat(n, m, a, x))
                : (wt == 1 ? matrix_atawati(n, m, a, w, x) : wt == 2 ? matrix_pseudoinverse(n, m, a, x) : matrix_ataati(n, m, a, x));
  SPEC;
  spec_eq_i(r, 0, "full rank");
  for (u32 i = 0; i < m; i++)
    for (u32 j = 0; j < n; j++) {
      double s = 0;
      for (u32 k = 0; k < q; k++)
        s += n > m ? cof[i * q + k] * a[j * m + k] : a[k * m + i] * cof[k * q + j];
      spec_eq_d(x[i * n + j], s, "pseudoinverse");
    }
  spec_end();
}
static void pinv_all(u32 n, u32 m) {
  SPEC;
  pinv(n, m, 0);
  pinv(n, m, 1);
  pinv(n, m, 2);
}
void h_pinv_tall(void) { pinv_all(2, 1), pinv_all(3, 2), pinv_all(5, 2), pinv_all(4, 3); }
void h_pinv_wide(void) { pinv_all(1, 2), pinv_all(2, 3), pinv_all(2, 4), pinv_all(3, 4); }
void h_pinv_square(void) {
  SPEC;
  double a[9], w[3], x[9], y[9];
  anyv(a, 9, "a"), anyv(w, 3, "w");
  LIB;
  int r = matrix_pseudoinverse(3, 3, a, x), q = matrix_inverse(3, a, y);
  SPEC;
  spec_eq_i(r, q, "square matrix");
  for (int i = 0; i < 9; i++)
    if (q == 0) spec_eq_d(x[i], y[i], "inverse of a square matrix");
  /* the wrong shapes */
  LIB;
  r = matrix_atwaiat(2, 3, a, w, x), q = matrix_atwaiat(2, 2, a, w, x);
  SPEC;
  spec_check(r < 0 && q < 0, "needs more rows than columns");
  LIB;
  r = matrix_atawati(3, 2, a, w, x), q = matrix_atawati(2, 2, a, w, x);
  SPEC;
  spec_check(r < 0 && q < 0, "needs fewer rows than columns");
}

/* ---- factorisations ---- */
/* m = u diag(d) u', u unit upper triangular, d >= 0; column z of u is irrelevant where d is 0 */
static void udu(u32 n, u32 zero) {
  SPEC;
  spec_begin();
  double u[n * n], d[n], m[n * n], k[n * n], lu_[n * n], ld[n];
  for (u32 i = 0; i < n; i++) {
    for (u32 j = 0; j < n; j++) u[i * n + j] = i < j && !(zero >> j & 1) ? spec_any_d("u") : i == j;
    d[i] = zero >> i & 1 ? 0 : spec_any_d("d");
    spec_assume(zero >> i & 1 || d[i] > 1e-12);
  }
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      double s = 0;
      for (u32 l = 0; l < n; l++) s += u[i * n + l] * d[l] * u[j * n + l];
      m[i * n + j] = k[i * n + j] = s;
    }
  LIB;
  matrix_udu(n, m, lu_, ld);
  SPEC;
  for (u32 i = 0; i < n; i++) spec_eq_d(ld[i], d[i], "diagonal factor");
  for (u32 i = 0; i < n * n; i++) spec_eq_d(lu_[i], u[i], "unit triangular factor");
  LIB;
  matrix_reconstruct_udu(n, u, d, m);
  SPEC;
  for (u32 i = 0; i < n * n; i++) spec_eq_d(m[i], k[i], "matrix of its factors");
  spec_end();
}
void h_udu(void) {
  for (u32 n = 1; n <= 5; n++) udu(n, 0);
  udu(3, 1), udu(3, 2), udu(3, 4), udu(4, 6), udu(4, 8), udu(2, 3), udu(5, 17);
}
/* an indefinite matrix: no negative diagonal factor */
void h_udu_negative(void) {
  SPEC;
  double m[9], u[9], d[3];
  anyv(m, 9, "m");
  LIB;
  matrix_udu(3, m, u, d);
  SPEC;
  for (int i = 0; i < 3; i++) spec_check(d[i] >= 0, "no negative diagonal factor");
}

void h_solve(void) {
  SPEC;
  for (u32 n = 1; n <= 4; n++) {
    spec_begin();
    double r[n * n], b[n], x[n], q[n * n], y[n], t[n];
    anyv(b, n, "b"), anyv(q, n * n, "q"), anyv(x, n, "x");
    for (u32 i = 0; i < n * n; i++) r[i] = i % n >= i / n ? spec_any_d("r") : 0;
    for (u32 i = 0; i < n; i++) spec_assume(fabs(r[i * n + i]) > 1e-9);
    LIB;
    qtmult(q, n, b, y);
    SPEC;
    for (u32 i = 0; i < n; i++) {
      double s = 0;
      for (u32 j = 0; j < n; j++) s += q[i * n + j] * b[j];
      spec_eq_d(y[i], s, "transposed orthogonal matrix times vector");
      s = 0;
      for (u32 j = i; j < n; j++) s += r[i * n + j] * x[j];
      t[i] = s;
    }
    LIB;
    rsolve(r, n, n, t, y);
    SPEC;
    for (u32 i = 0; i < n; i++) spec_eq_d(y[i], x[i], "triangular solution");
    LIB;
    rsolve(r, n, n, t, t);
    SPEC;
    for (u32 i = 0; i < n; i++) spec_eq_d(t[i], x[i], "triangular solution in place");
    spec_end();
  }
}
/* q' q = 1, q' a = r upper triangular; the largest entry of the first column is in row big, positive or negative */
static void qr2(int sign0, int sign2, int big) {
  SPEC;
  spec_begin();
  double a[4], q[4], r[4];
  anyv(a, 4, "a");
  spec_assume(sign0 > 0 ? a[0] > 1e-9 : a[0] < -1e-9);
  spec_assume(sign2 > 0 ? a[2] > 1e-9 : a[2] < -1e-9);
  spec_assume(big ? fabs(a[2]) > fabs(a[0]) : fabs(a[2]) < fabs(a[0]));
  /* the analysis does not know these facts of arithmetic; they exclude nothing */
  double t1 = big ? a[0] / a[2] : a[2] / a[0], sq = 1 + t1 * t1, h = sqrt(sq);
  spec_assume(t1 * t1 >= 0), spec_assume(h >= 1);
  spec_assume(sign0 * sign2 > 0 ? t1 > 0 && t1 * h > 0 : t1 < 0 && t1 * h < 0);
  LIB;
  int e = qrdecomp_square(a, 2, q, r);
  SPEC;
  for (u32 i = 0; i < 2; i++)
    for (u32 j = 0; j < 2; j++) {
      double s = 0, t = 0;
      for (u32 k = 0; k < 2; k++) s += q[i * 2 + k] * q[j * 2 + k], t += q[i * 2 + k] * a[k * 2 + j];
      spec_eq_d(s, i == j, "orthogonal");
      spec_eq_d(r[i * 2 + j], t, "product of the factors");
    }
  spec_eq_d(r[2], 0, "triangular");
  spec_check(e <= 0, "status");
  double b[2], x[2], y[2] = {0, 0};
  anyv(b, 2, "b");
  anyv(x, 2, "x before");
  LIB;
  int z = qrsolve(a, 2, 2, b, x);
  SPEC;
  spec_eq_i(z, e, "status of the solution");
  if (z == 0) {
    for (u32 i = 0; i < 2; i++) y[0] += r[i] * x[i], y[1] += r[2 + i] * x[i];
    for (u32 i = 0; i < 2; i++) spec_eq_d(y[i], q[i * 2] * b[0] + q[i * 2 + 1] * b[1], "solution of the system");
  }
  spec_end();
}
void h_qr2(void) {
  SPEC;
  for (int i = 0; i < 8; i++) qr2(i & 1 ? 1 : -1, i & 2 ? 1 : -1, i >> 2);
}
