// Dense LU replacements for the LAPACK / MKL entry points devsim loads at
// run time (DEVSIM_MATH_LIBS).  Arithmetic is done in quad precision, so a
// system whose exact solution is representable gets that exact solution.
#include <complex>
#include <cstdio>
#include <cstring>
#include <vector>

typedef __float128 Q;
struct C {
  Q r, i;
  C(Q a = 0, Q b = 0) : r(a), i(b) {}
};
static C operator+(C a, C b) { return C(a.r + b.r, a.i + b.i); }
static C operator-(C a, C b) { return C(a.r - b.r, a.i - b.i); }
static C operator*(C a, C b) { return C(a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r); }
static C operator/(C a, C b)
{
  Q d = b.r * b.r + b.i * b.i;
  return C((a.r * b.r + a.i * b.i) / d, (a.i * b.r - a.r * b.i) / d);
}
static Q mag(Q a) { return a < 0 ? -a : a; }
static Q mag(C a) { return a.r * a.r + a.i * a.i; }
static Q fromd(double d, Q *) { return d; }
static C fromd(std::complex<double> d, C *) { return C(d.real(), d.imag()); }
static void tod(Q q, double &d) { d = (double)q; }
static void tod(C q, std::complex<double> &d) { d = std::complex<double>((double)q.r, (double)q.i); }

// a is n x n, column major; returns 0 or the (1-based) index of a zero pivot
template <class T>
static int lu(int n, std::vector<T> &a, std::vector<int> &piv)
{
  int info = 0;
  piv.assign(n, 0);
  for (int k = 0; k < n; ++k)
  {
    int p = k;
    for (int i = k + 1; i < n; ++i)
      if (mag(a[i + k * n]) > mag(a[p + k * n]))
        p = i;
    piv[k] = p;
    if (!(mag(a[p + k * n]) > 0))
    {
      if (!info)
        info = k + 1;
      continue;
    }
    if (p != k)
      for (int j = 0; j < n; ++j)
        std::swap(a[k + j * n], a[p + j * n]);
    for (int i = k + 1; i < n; ++i)
    {
      a[i + k * n] = a[i + k * n] / a[k + k * n];
      for (int j = k + 1; j < n; ++j)
        a[i + j * n] = a[i + j * n] - a[i + k * n] * a[k + j * n];
    }
  }
  return info;
}

template <class T>
static void solve(int n, const std::vector<T> &a, const std::vector<int> &piv, std::vector<T> &x, bool trans)
{
  if (!trans)
  {
    for (int k = 0; k < n; ++k)
      std::swap(x[k], x[piv[k]]);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j)
        x[i] = x[i] - a[i + j * n] * x[j];
    for (int i = n - 1; i >= 0; --i)
    {
      for (int j = i + 1; j < n; ++j)
        x[i] = x[i] - a[i + j * n] * x[j];
      x[i] = x[i] / a[i + i * n];
    }
  }
  else
  {
    for (int i = 0; i < n; ++i)
    {
      for (int j = 0; j < i; ++j)
        x[i] = x[i] - a[j + i * n] * x[j];
      x[i] = x[i] / a[i + i * n];
    }
    for (int i = n - 1; i >= 0; --i)
      for (int j = i + 1; j < n; ++j)
        x[i] = x[i] - a[j + i * n] * x[j];
    for (int k = n - 1; k >= 0; --k)
      std::swap(x[k], x[piv[k]]);
  }
}

template <class T, class D>
static void getrf_(int n, D *a, int lda, int *ipiv, int *info)
{
  std::vector<T> m(n * n);
  std::vector<int> piv;
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < n; ++i)
      m[i + j * n] = fromd(a[i + j * lda], (T *)nullptr);
  *info = lu(n, m, piv);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < n; ++i)
      tod(m[i + j * n], a[i + j * lda]);
  for (int i = 0; i < n; ++i)
    ipiv[i] = piv[i] + 1;
}

template <class T, class D>
static void getrs_(char t, int n, int nrhs, D *a, int lda, int *ipiv, D *b, int ldb, int *info)
{
  std::vector<T> m(n * n);
  std::vector<int> piv(n);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < n; ++i)
      m[i + j * n] = fromd(a[i + j * lda], (T *)nullptr);
  for (int i = 0; i < n; ++i)
    piv[i] = ipiv[i] - 1;
  for (int k = 0; k < nrhs; ++k)
  {
    std::vector<T> x(n);
    for (int i = 0; i < n; ++i)
      x[i] = fromd(b[i + k * ldb], (T *)nullptr);
    solve(n, m, piv, x, t == 'T' || t == 't');
    for (int i = 0; i < n; ++i)
      tod(x[i], b[i + k * ldb]);
  }
  *info = 0;
}

namespace {
template <class T>
struct Fac {
  int n = 0;
  std::vector<T> a;
  std::vector<int> piv;
};
struct Handle {
  int n = -1;
  std::vector<int> ia, ja;  // pattern given at the symbolic phase
  Fac<Q> q;
  Fac<C> c;
};
}  // namespace

template <class T, class D>
static int factor(Handle &h, Fac<T> &f, int n, const D *a, const int *ia, const int *ja)
{
  // numeric factorization uses the pattern of the analysis phase
  if (h.n != n || (int)h.ia.size() != n + 1)
    return -3;
  for (int i = 0; i <= n; ++i)
    if (h.ia[i] != ia[i])
      return -3;
  for (int k = 0; k < ia[n]; ++k)
    if (h.ja[k] != ja[k])
      return -3;
  f.n = n;
  f.a.assign(n * n, T());
  for (int i = 0; i < n; ++i)
    for (int k = ia[i]; k < ia[i + 1]; ++k)
      f.a[i + ja[k] * n] = f.a[i + ja[k] * n] + fromd(a[k], (T *)nullptr);
  return lu(n, f.a, f.piv) ? -4 : 0;
}

template <class T, class D>
static void dosolve(Fac<T> &f, const D *b, D *x, bool trans)
{
  std::vector<T> v(f.n);
  for (int i = 0; i < f.n; ++i)
    v[i] = fromd(b[i], (T *)nullptr);
  solve(f.n, f.a, f.piv, v, trans);
  for (int i = 0; i < f.n; ++i)
    tod(v[i], x[i]);
}

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef std::complex<double> Z;

EXPORT void dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info)
{
  (void)m;
  getrf_<Q>(*n, a, *lda, ipiv, info);
}
EXPORT void zgetrf_(int *m, int *n, Z *a, int *lda, int *ipiv, int *info)
{
  (void)m;
  getrf_<C>(*n, a, *lda, ipiv, info);
}
EXPORT void dgetrs_(char *t, int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info)
{
  getrs_<Q>(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb, info);
}
EXPORT void zgetrs_(char *t, int *n, int *nrhs, Z *a, int *lda, int *ipiv, Z *b, int *ldb, int *info)
{
  getrs_<C>(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb, info);
}
EXPORT void drotg_(double *a, double *b, double *c, double *s)
{
  // reference BLAS drotg
  double roe = (std::abs(*a) > std::abs(*b)) ? *a : *b;
  double scale = std::abs(*a) + std::abs(*b);
  double r, z;
  if (scale == 0.0)
  {
    *c = 1.0;
    *s = 0.0;
    r = 0.0;
    z = 0.0;
  }
  else
  {
    double x = *a / scale, y = *b / scale;
    r = scale * __builtin_sqrt(x * x + y * y);
    if (roe < 0)
      r = -r;
    *c = *a / r;
    *s = *b / r;
    z = 1.0;
    if (std::abs(*a) > std::abs(*b))
      z = *s;
    else if (*c != 0.0)
      z = 1.0 / *c;
  }
  *a = r;
  *b = z;
}
EXPORT void zrotg_(Z *a, Z *b, Z *c, Z *s)
{
  double n = std::abs(*a);
  if (n == 0.0)
  {
    *c = 0.0;
    *s = 1.0;
    *a = *b;
    return;
  }
  double scale = n + std::abs(*b);
  double r = scale * __builtin_sqrt(std::norm(*a / scale) + std::norm(*b / scale));
  Z alpha = *a / n;
  *reinterpret_cast<double *>(c) = n / r;
  *s = alpha * std::conj(*b) / r;
  *a = alpha * r;
}
EXPORT void PARDISO(void **pt, const int *, const int *, const int *mtype, const int *phase, const int *n,
                    const void *a, const int *ia, const int *ja, int *, const int *, int *iparm, const int *,
                    void *b, void *x, int *error)
{
  Handle *h = static_cast<Handle *>(pt[0]);
  *error = 0;
  if (*phase == -1)
  {
    delete h;
    pt[0] = nullptr;
    return;
  }
  if (!h)
  {
    h = new Handle;
    pt[0] = h;
  }
  if (*phase == 11)
  {
    h->n = *n;
    h->ia.assign(ia, ia + *n + 1);
    h->ja.assign(ja, ja + ia[*n]);
  }
  else if (*phase == 22)
  {
    if (*mtype == 13)
      *error = factor(*h, h->c, *n, static_cast<const Z *>(a), ia, ja);
    else
      *error = factor(*h, h->q, *n, static_cast<const double *>(a), ia, ja);
  }
  else if (*phase == 33)
  {
    bool trans = iparm[11] != 0;
    if (*mtype == 13)
      dosolve(h->c, static_cast<const Z *>(b), static_cast<Z *>(x), trans);
    else
      dosolve(h->q, static_cast<const double *>(b), static_cast<double *>(x), trans);
  }
}
#ifndef NO_MKL
EXPORT void mkl_get_version_string(char *s, int l)
{
  snprintf(s, l, "verification harness dense LU");
}
#endif
