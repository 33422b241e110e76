// Stand-in for Eigen's dense and sparse matrices: the operations by their
// definition, entry by entry.  The inverse of a symmetric positive definite
// matrix is given through its factors: any such matrix S is
// L D L' with L unit lower triangular and D positive; the entries of L and D are
// arbitrary and S is replaced by that product (its value is kept in `inverted`).
// With `eliminate` matrices are inverted by elimination.
#ifndef VF_EIGEN_H
#define VF_EIGEN_H
#include <cassert>
#include <cmath>
#include <initializer_list>
#include <ostream>
#include <utility>
#include <algorithm>
#include <vector>
#include "vf.h"
namespace Eigen {
const int Dynamic = -1;
typedef std::ptrdiff_t Index;
struct Dense {
  static const int MAX = 12;
  int r_ = 0, c_ = 0;
  double a_[MAX * MAX];
  Dense() {}
  Dense(int r, int c) { size(r, c); }
  Dense(const Dense &o) { copy(o); }
  Dense &operator=(const Dense &o) {
    if (this != &o) copy(o);
    return *this;
  }
  void size(int r, int c) {
    vf_assert(0 <= r && r <= MAX && 0 <= c && c <= MAX, "matrix of at most twelve rows and columns");
    r_ = r, c_ = c;
  }
  void copy(const Dense &o) {
    r_ = o.r_, c_ = o.c_;
    for (int i = 0; i < r_ * c_; i++) a_[i] = o.a_[i];
  }
  Index rows() const { return r_; }
  Index cols() const { return c_; }
  Index size() const { return r_ * c_; }
  double &at(int i, int j) {
    vf_assert(0 <= i && i < r_ && 0 <= j && j < c_, "index within the matrix");
    return a_[i * c_ + j];
  }
  double at(int i, int j) const { return const_cast<Dense *>(this)->at(i, j); }
  double &operator()(Index i, Index j) { return at(i, j); }
  double operator()(Index i, Index j) const { return at(i, j); }
  double &operator()(Index i) { return c_ == 1 ? at(i, 0) : at(0, i); }
  double operator()(Index i) const { return c_ == 1 ? at(i, 0) : at(0, i); }
  double &operator[](Index i) { return (*this)(i); }
  double operator[](Index i) const { return (*this)(i); }
  double &coeffRef(Index i, Index j) { return at(i, j); }
  double coeff(Index i, Index j) const { return at(i, j); }
  Dense transpose() const {
    Dense t(c_, r_);
    for (int i = 0; i < r_; i++) for (int j = 0; j < c_; j++) t.a_[j * r_ + i] = a_[i * c_ + j];
    return t;
  }
  Dense eval() const { return *this; }
  Dense &noalias() { return *this; }
  void setZero() { for (int i = 0; i < r_ * c_; i++) a_[i] = 0; }
  void setConstant(double x) { for (int i = 0; i < r_ * c_; i++) a_[i] = x; }
  void setIdentity() { for (int i = 0; i < r_; i++) for (int j = 0; j < c_; j++) a_[i * c_ + j] = i == j; }
  double norm() const { return std::sqrt(squaredNorm()); }
  double squaredNorm() const {
    double s = 0;
    for (int i = 0; i < r_ * c_; i++) s += a_[i] * a_[i];
    return s;
  }
  Dense &operator+=(const Dense &o) { return *this = plus(o, 1); }
  Dense &operator-=(const Dense &o) { return *this = plus(o, -1); }
  Dense &operator*=(double x) { return *this = times(x); }
  Dense plus(const Dense &o, double k) const {
    vf_assert(r_ == o.r_ && c_ == o.c_, "matrices of the same size");
    Dense s(r_, c_);
    for (int i = 0; i < r_ * c_; i++) s.a_[i] = k > 0 ? a_[i] + o.a_[i] : a_[i] - o.a_[i];
    return s;
  }
  Dense times(double x) const {
    Dense s(r_, c_);
    for (int i = 0; i < r_ * c_; i++) s.a_[i] = a_[i] * x;
    return s;
  }
  Dense times(const Dense &o) const {
    vf_assert(c_ == o.r_, "sizes of the factors of a product");
    Dense s(r_, o.c_);
    for (int i = 0; i < r_; i++)
      for (int j = 0; j < o.c_; j++) {
        double x = 0;
        for (int k = 0; k < c_; k++) x += a_[i * c_ + k] * o.a_[k * o.c_ + j];
        s.a_[i * o.c_ + j] = x;
      }
    return s;
  }
  Dense inverse() const;
  // (a decomposition stands for the inverse)
  struct Solver {
    const Dense &m;
    Dense solve(const Dense &b) const { return m.inverse().times(b); }
    Dense inverse() const { return m.inverse(); }
  };
  Solver llt() const { return Solver{*this}; }
  Solver ldlt() const { return Solver{*this}; }
  Solver lu() const { return Solver{*this}; }
  Solver partialPivLu() const { return Solver{*this}; }
  Solver fullPivLu() const { return Solver{*this}; }
  double dot(const Dense &o) const {
    vf_assert(size() == o.size(), "vectors of the same size");
    double s = 0;
    for (int i = 0; i < r_ * c_; i++) s += a_[i] * o.a_[i];
    return s;
  }
  const Dense row(Index i) const {
    Dense t(1, c_);
    for (int j = 0; j < c_; j++) t.a_[j] = at(i, j);
    return t;
  }
  const Dense col(Index j) const {
    Dense t(r_, 1);
    for (int i = 0; i < r_; i++) t.a_[i] = at(i, j);
    return t;
  }
  struct Comma {
    Dense &m;
    int k;
    Comma &operator,(double x) {
      vf_assert(k < m.r_ * m.c_, "no more coefficients than the matrix has");
      m.a_[k++] = x;
      return *this;
    }
  };
  Comma operator<<(double x) {
    Comma c{*this, 0};
    c, x;
    return c;
  }
};
// the argument and the result of the last inversion
inline Dense inverted, inverse_of;
inline int inversions = 0;
inline bool eliminate = false;
inline Dense Dense::inverse() const {
  const int n = r_;
  vf_assert(r_ == c_, "only square matrices have an inverse");
  inverted = *this;
  ++inversions;
  Dense t(n, n);
  if (eliminate) {
    double m[MAX][2 * MAX];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) m[i][j] = a_[i * n + j], m[i][n + j] = i == j;
    for (int k = 0; k < n; k++) {
      double p = m[k][k];
      for (int j = 0; j < 2 * n; j++) m[k][j] /= p;
      for (int i = 0; i < n; i++) {
        if (i == k) continue;
        double q = m[i][k];
        for (int j = 0; j < 2 * n; j++) m[i][j] -= q * m[k][j];
      }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t.a_[i * n + j] = m[i][n + j];
    return inverse_of = t;
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++) vf_assert_eq(a_[i * n + j], a_[j * n + i], "the residual covariance is symmetric");
  double l[MAX][MAX], k[MAX][MAX], d[MAX];
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) l[i][j] = k[i][j] = i == j;
    for (int j = 0; j < i; j++) l[i][j] = vf_real("factor");
    d[i] = vf_real("pivot");
    vf_assume(d[i] > 0);
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++) {
      k[i][j] = 0;
      for (int p = j; p < i; p++) k[i][j] -= l[i][p] * k[p][j];
    }
  Dense &s = const_cast<Dense &>(*this);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double x = 0, y = 0;
      for (int p = 0; p < n; p++) x += l[i][p] * d[p] * l[j][p];
      for (int p = 0; p < n; p++) y += k[p][i] / d[p] * k[p][j];
      s.a_[i * n + j] = x;
      t.a_[i * n + j] = y;
    }
  return inverse_of = t;
}
inline Dense operator*(const Dense &a, const Dense &b) { return a.times(b); }
inline Dense operator*(const Dense &a, double x) { return a.times(x); }
inline Dense operator*(double x, const Dense &a) { return a.times(x); }
inline Dense operator+(const Dense &a, const Dense &b) { return a.plus(b, 1); }
inline Dense operator-(const Dense &a, const Dense &b) { return a.plus(b, -1); }
inline Dense operator-(const Dense &a) { return a.times(-1); }
inline std::ostream &operator<<(std::ostream &o, const Dense &) { return o; }
template <class T, int R, int C> struct Matrix : Dense {
  Matrix() : Dense(R < 0 ? 0 : R, C < 0 ? 0 : C) {}
  Matrix(const Matrix &o) : Dense(o) {}
  Matrix(const Dense &o) : Dense(o) { check(); }
  explicit Matrix(int n) : Dense(R < 0 ? n : R, C < 0 ? n : C) {}
  Matrix(int r, int c) : Dense(r, c) { check(); }
  Matrix(double x, double y, double z) : Dense(3, 1) { a_[0] = x, a_[1] = y, a_[2] = z; }
  Matrix &operator=(const Dense &o) {
    Dense::operator=(o);
    check();
    return *this;
  }
  Matrix &operator=(const Matrix &o) {
    Dense::operator=(o);
    return *this;
  }
  void check() { vf_assert((R < 0 || r_ == R) && (C < 0 || c_ == C), "size of a fixed matrix"); }
  void resize(Index r, Index c) { Dense::size(r, c), check(); }
  void resize(Index n) { C == 1 ? resize(n, 1) : resize(1, n); }
  void conservativeResize(Index r, Index c) {
    Dense o(*this);
    resize(r, c);
    for (int i = 0; i < r_ && i < o.r_; i++) for (int j = 0; j < c_ && j < o.c_; j++) a_[i * c_ + j] = o.a_[i * o.c_ + j];
  }
  using Dense::setZero;
  void setZero(Index r, Index c) {
    resize(r, c);
    Dense::setZero();
  }
  static Matrix Identity() { return Identity(R, C); }
  static Matrix Identity(int r, int c) {
    Matrix m(r, c);
    m.setIdentity();
    return m;
  }
  static Matrix Zero() { return Zero(R, C); }
  static Matrix Zero(int r, int c) {
    Matrix m(r, c);
    m.setZero();
    return m;
  }
};
typedef Matrix<double, Dynamic, Dynamic> MatrixXd;
typedef Matrix<double, Dynamic, 1> VectorXd;
typedef Matrix<double, 3, 1> Vector3d;
template <class T> struct Triplet {
  int i, j;
  T x;
  Triplet(int a, int b, T c) : i(a), j(b), x(c) {}
};
template <class T> struct SparseMatrix : Dense {
  SparseMatrix() {}
  SparseMatrix(int r, int c) : Dense(r, c) { setZero(); }
  void reserve(int) {}
  template <class I> void setFromTriplets(I b, I e) {
    setZero();
    for (; b != e; ++b) at(b->i, b->j) += b->x;
  }
};
} // namespace Eigen
#endif
