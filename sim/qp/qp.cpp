#include "qp.h"
#include <Eigen/Dense>
#include <vector>
#include <algorithm>
#include <cmath>

using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

namespace
{
// Mehrotra predictor-corrector for  min 1/2 x'Px + q'x, Ex = b, Gx + s = h, s >= 0
struct Out
{
  Vec x, ye, z;
  double pr, dr, gap;
  bool ok;
};
Out ipm(const Mat& P, const Vec& q, const Mat& E, const Vec& b, const Mat& G, const Vec& h)
{
  const int n = (int)q.size(), me = (int)b.size(), mi = (int)h.size();
  Out o;
  o.ok = false;
  Vec x = Vec::Zero(n), ye = Vec::Zero(me), s(mi), z = Vec::Ones(mi);
  for (int i = 0; i < mi; ++i)
    s(i) = std::max(1.0, h(i));
  const double sq = 1 + q.lpNorm<Eigen::Infinity>(), sb = 1 + (me ? b.lpNorm<Eigen::Infinity>() : 0), sh = 1 + (mi ? h.lpNorm<Eigen::Infinity>() : 0);
  double best = 1e300;
  o.x = x;
  o.ye = ye;
  o.z = z;
  for (int it = 0; it < 80; ++it)
  {
    const Vec rd = P * x + q + E.transpose() * ye + G.transpose() * z;
    const Vec re = E * x - b;
    const Vec ri = G * x + s - h;
    const double mu = mi ? s.dot(z) / mi : 0;
    const double pr = std::max(me ? re.lpNorm<Eigen::Infinity>() / sb : 0.0, mi ? ri.lpNorm<Eigen::Infinity>() / sh : 0.0);
    const double dr = rd.lpNorm<Eigen::Infinity>() / sq;
    if (!(std::isfinite(pr) && std::isfinite(dr) && std::isfinite(mu)))
      break;
    const double score = std::max(std::max(pr, dr), mu);
    if (score < best)
    {
      best = score;
      o.x = x;
      o.ye = ye;
      o.z = z;
      o.pr = pr;
      o.dr = dr;
      o.gap = mu;
    }
    if (pr < 1e-11 && dr < 1e-11 && mu < 1e-12)
      break;
    // KKT: eliminate s and z
    Mat K = Mat::Zero(n + me, n + me);
    Vec w(mi);
    for (int i = 0; i < mi; ++i)
      w(i) = z(i) / s(i);
    K.topLeftCorner(n, n) = P + G.transpose() * w.asDiagonal() * G;
    const double reg = 1e-11 * (1 + P.lpNorm<Eigen::Infinity>());
    K.topLeftCorner(n, n).diagonal().array() += reg;
    K.topRightCorner(n, me) = E.transpose();
    K.bottomLeftCorner(me, n) = E;
    K.bottomRightCorner(me, me).diagonal().array() -= reg;
    Eigen::PartialPivLU<Mat> lu(K);
    auto solve = [&](const Vec& rc, Vec& dx, Vec& dy, Vec& ds, Vec& dz) {
      // rc: complementarity residual, s.*dz + z.*ds = -rc
      Vec r(n + me);
      Vec t(mi);
      for (int i = 0; i < mi; ++i)
        t(i) = (-rc(i) + z(i) * ri(i)) / s(i);
      r.head(n) = -rd - G.transpose() * t;
      r.tail(me) = -re;
      Vec d = lu.solve(r);
      // one refinement step against the unregularised matrix
      Mat K0 = K;
      K0.topLeftCorner(n, n).diagonal().array() -= reg;
      K0.bottomRightCorner(me, me).diagonal().array() += reg;
      d += lu.solve(r - K0 * d);
      dx = d.head(n);
      dy = d.tail(me);
      ds = -ri - G * dx;
      dz.resize(mi);
      for (int i = 0; i < mi; ++i)
        dz(i) = (-rc(i) - z(i) * ds(i)) / s(i);
    };
    auto step = [&](const Vec& v, const Vec& dv) {
      double a = 1;
      for (int i = 0; i < mi; ++i)
        if (dv(i) < 0)
          a = std::min(a, -v(i) / dv(i));
      return a;
    };
    Vec dx, dy, ds, dz;
    Vec rc = s.cwiseProduct(z);
    if (mi)
    {
      solve(rc, dx, dy, ds, dz);
      const double ap = step(s, ds), ad = step(z, dz);
      const double mua = (s + ap * ds).dot(z + ad * dz) / mi;
      const double sig = std::pow(mua / mu, 3);
      rc = rc + ds.cwiseProduct(dz);
      rc.array() -= sig * mu;
    }
    solve(rc, dx, dy, ds, dz);
    double a = std::min(step(s, ds), step(z, dz));
    a = mi ? std::min(1.0, 0.995 * a) : 1.0;
    x += a * dx;
    ye += a * dy;
    s += a * ds;
    z += a * dz;
    if (mi && (x.lpNorm<Eigen::Infinity>() > 1e14))
      break;
  }
  o.ok = best < 1e-7;
  return o;
}
}  // namespace

extern "C" __attribute__((visibility("default"))) int simqp_solve(int n, const double* Pp, const double* qp, int m, const double* Ap, const double* l, const double* u, double* xo, double* yo)
{
  Mat P = Eigen::Map<const Mat>(Pp, n, n);
  Vec q = Eigen::Map<const Vec>(qp, n);
  Mat A = Eigen::Map<const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(Ap, m, n);
  if (!P.allFinite() || !q.allFinite() || !A.allFinite())
    return 2;
  std::vector<int> eq, lo, up;
  for (int i = 0; i < m; ++i)
  {
    if (std::isnan(l[i]) || std::isnan(u[i]))
      return 2;
    if (l[i] > u[i] + 1e-12 * (1 + std::abs(u[i])))
      return 1;
    if (std::abs(u[i] - l[i]) <= 1e-12 * (1 + std::abs(u[i])))
    {
      if (std::abs(u[i]) >= 1e20)
        return 1;
      eq.push_back(i);
    }
    else
    {
      if (l[i] > -1e20)
        lo.push_back(i);
      if (u[i] < 1e20)
        up.push_back(i);
    }
  }
  Mat E(eq.size(), n), G(lo.size() + up.size(), n);
  Vec b(eq.size()), h(lo.size() + up.size());
  for (size_t k = 0; k < eq.size(); ++k)
  {
    E.row((int)k) = A.row(eq[k]);
    b((int)k) = 0.5 * (l[eq[k]] + u[eq[k]]);
  }
  int k = 0;
  for (int i : up)
  {
    G.row(k) = A.row(i);
    h(k++) = u[i];
  }
  for (int i : lo)
  {
    G.row(k) = -A.row(i);
    h(k++) = -l[i];
  }
  // row scaling
  Vec se = Vec::Ones(E.rows()), sg = Vec::Ones(G.rows());
  for (int i = 0; i < E.rows(); ++i)
  {
    const double nr = E.row(i).norm();
    if (nr > 1e-14)
      se(i) = 1 / nr;
    else if (std::abs(b(i)) > 1e-9)
      return 1;
    E.row(i) *= se(i);
    b(i) *= se(i);
  }
  for (int i = 0; i < G.rows(); ++i)
  {
    const double nr = G.row(i).norm();
    if (nr > 1e-14)
      sg(i) = 1 / nr;
    else if (h(i) < -1e-9)
      return 1;
    else
      h(i) = std::max(h(i), 1.0);  // 0 <= h: never active
    G.row(i) *= sg(i);
    h(i) *= sg(i);
  }
  const double c = 1.0 / std::max(1.0, std::max(q.lpNorm<Eigen::Infinity>(), P.lpNorm<Eigen::Infinity>()));
  Out o = ipm(c * P, c * q, E, b, G, h);
  if (!o.ok)
  {
    // infeasible, or unbounded? minimise the violation
    const int mi = (int)h.size(), me = (int)b.size();
    const int nn = n + 1;
    Mat P2 = Mat::Identity(nn, nn) * 1e-9;
    Vec q2 = Vec::Zero(nn);
    q2(n) = 1;
    Mat G2 = Mat::Zero(mi + 2 * me + 1, nn);
    Vec h2(mi + 2 * me + 1);
    G2.topLeftCorner(mi, n) = G;
    G2.block(mi, 0, me, n) = E;
    G2.block(mi + me, 0, me, n) = -E;
    G2.col(n).setConstant(-1);
    h2.head(mi) = h;
    h2.segment(mi, me) = b;
    h2.segment(mi + me, me) = -b;
    h2(mi + 2 * me) = 0;
    Out f = ipm(P2, q2, Mat(0, nn), Vec(0), G2, h2);
    return f.ok && f.x(n) > 1e-6 ? 1 : 2;
  }
  for (int i = 0; i < n; ++i)
    xo[i] = o.x(i);
  for (int i = 0; i < m; ++i)
    yo[i] = 0;
  for (size_t j = 0; j < eq.size(); ++j)
    yo[eq[j]] = o.ye((int)j) * se((int)j) / c;
  k = 0;
  for (int i : up)
  {
    yo[i] += o.z(k) * sg(k) / c;
    ++k;
  }
  for (int i : lo)
  {
    yo[i] -= o.z(k) * sg(k) / c;
    ++k;
  }
  return 0;
}
