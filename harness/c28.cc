// C28: KAZE features, FED steps, diffusion and the image filters of the scale space.
#include <algorithm>
#include <cmath>
#include <memory>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>

#include <kaze/KAZE.h>
#include <kaze/fed.h>
#include <kaze/nldiffusion_functions.h>
#include <kaze/utils.h>

#include "pbt.h"
#include "util.h"

const char* pbt::kProperty = "C28";
using pbt::Source;

namespace {
typedef std::vector<double> Img;  // row major

struct GenImage {
  cv::Mat m;
  bool textured = false;
};

// Grey images with values in [lo, hi]; the matrix may be a view into a larger one.
GenImage genImage(Source& s, int w, int h, double lo, double hi, bool allow_view = true) {
  GenImage g;
  const bool view = allow_view && s.chance(1, 4);
  cv::Mat big(h + (view ? 3 : 0), w + (view ? 5 : 0), CV_32F, cv::Scalar(12345.f));
  g.m = big(cv::Rect(view ? 2 : 0, view ? 1 : 0, w, h));
  const int kind = s.i(0, 6);
  const uint64_t sd = s.draw(1u << 30);
  Source r(sd * 7919 + 13);
  const double ang = s.real(0, 6.28), freq = s.real(0.02, 1.5);
  struct Blob {
    double x, y, sg, a;
  };
  std::vector<Blob> blobs;
  const int nb = s.size(1, 12);
  for (int i = 0; i < nb; ++i)
    blobs.push_back({r.real(0, w), r.real(0, h), r.real(0.8, 9), r.sreal(1.0)});
  const int cell = s.i(1, 12);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double v = 0.5;
      switch (kind) {
        case 0: v = 0.5; break;
        case 1: v = r.draw(1024) / 1023.0; break;
        case 2: v = 0.5 + 0.5 * std::sin(freq * (std::cos(ang) * x + std::sin(ang) * y)); break;
        case 3: v = ((x / cell + y / cell) & 1) ? 1.0 : 0.0; break;
        case 4:
        case 5: {
          v = 0.5;
          for (const Blob& b : blobs) {
            const double d = ((x - b.x) * (x - b.x) + (y - b.y) * (y - b.y)) / (b.sg * b.sg);
            v += kind == 4 ? b.a * std::exp(-0.5 * d) : (d < 4 ? 0.5 * b.a : 0.0);
          }
          v = std::min(1.0, std::max(0.0, v));
          break;
        }
        default: {  // sparse impulses
          v = r.draw(17) == 0 ? 1.0 : 0.0;
        }
      }
      g.m.at<float>(y, x) = static_cast<float>(lo + (hi - lo) * v);
    }
  g.textured = kind != 0;
  s << "image kind=" << kind << " seed=" << sd << (view ? " view" : "") << " [" << lo << "," << hi << "]; ";
  return g;
}

int reflect101(int p, int n) {
  if (n == 1) return 0;
  while (p < 0 || p >= n) {
    if (p < 0) p = -p;
    if (p >= n) p = 2 * n - 2 - p;
  }
  return p;
}
int clampi(int p, int n) { return p < 0 ? 0 : p >= n ? n - 1 : p; }

Img toImg(const cv::Mat& m) {
  Img o(static_cast<size_t>(m.rows) * m.cols);
  for (int y = 0; y < m.rows; ++y)
    for (int x = 0; x < m.cols; ++x) o[static_cast<size_t>(y) * m.cols + x] = m.at<float>(y, x);
  return o;
}
double maxAbs(const Img& a) {
  double v = 0;
  for (double x : a) v = std::max(v, std::fabs(x));
  return v;
}
void compareImg(const cv::Mat& got, const Img& want, double tol, const char* what) {
  for (int y = 0; y < got.rows; ++y)
    for (int x = 0; x < got.cols; ++x) {
      const double g = got.at<float>(y, x), w = want[static_cast<size_t>(y) * got.cols + x];
      if (!(std::fabs(g - w) <= tol)) {
        std::ostringstream o;
        o.precision(9);
        o << what << ": at (x=" << x << ", y=" << y << ") got " << g << ", definition gives " << w << " (tolerance "
          << tol << ")";
        pbt::fail(o.str());
      }
    }
}
template <typename B>
Img sepConv(const Img& in, int w, int h, const std::vector<double>& kx, const std::vector<double>& ky, B border) {
  Img t(in.size()), o(in.size());
  const int rx = static_cast<int>(kx.size()) / 2, ry = static_cast<int>(ky.size()) / 2;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double a = 0;
      for (int k = -rx; k <= rx; ++k)
        if (kx[k + rx] != 0) a += kx[k + rx] * in[static_cast<size_t>(y) * w + border(x + k, w)];
      t[static_cast<size_t>(y) * w + x] = a;
    }
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double a = 0;
      for (int k = -ry; k <= ry; ++k)
        if (ky[k + ry] != 0) a += ky[k + ry] * t[static_cast<size_t>(border(y + k, h)) * w + x];
      o[static_cast<size_t>(y) * w + x] = a;
    }
  return o;
}
bool isPrime(int n) {
  if (n < 2) return false;
  for (int d = 2; static_cast<long>(d) * d <= n; ++d)
    if (n % d == 0) return false;
  return true;
}
}  // namespace

// ---------------------------------------------------------------- FED step lists
PBT_PROP(fed_steps, "two or more steps", 40000, 900000, 1) {
  const double tau_max = s.chance(1, 3) ? 0.25 : s.logReal(1e-3, 2.0);
  const int M = s.chance(1, 2) ? 1 : s.i(1, 10);
  double T;
  if (s.chance(1, 12)) {
    T = 0;
  } else if (s.chance(1, 4)) {
    // around the largest time n steps reach
    const int n = s.size(1, 60);
    T = M * tau_max * n * (n + 1) / 3.0 * (1 + s.oneOf<double>({0, 1e-3, -1e-3, 1e-5, -1e-5}));
  } else {
    T = M * tau_max * s.logReal(1e-3, s.oneOf<double>({10, 1e3, 3e5}));
  }
  const float Tf = static_cast<float>(T), tmf = static_cast<float>(tau_max);
  const bool reorder = s.boolean();
  const bool cycle = M == 1 && s.boolean();
  std::vector<float> tau(s.size(0, 5), 77.f);  // the caller may reuse a list
  s << "T=" << Tf << " M=" << M << " tau_max=" << tmf << " reordering=" << reorder << " used list of " << tau.size()
    << "; ";
  const int n = cycle ? fed_tau_by_cycle_time(Tf, tmf, reorder, tau) : fed_tau_by_process_time(Tf, M, tmf, reorder, tau);
  s.label(n == 0 ? "none" : n == 1 ? "one" : n < 20 ? "few" : "many");
  PBT_CHECK(n >= 0, "negative number of steps");
  PBT_EQ(tau.size(), static_cast<size_t>(n), "the list must hold exactly the reported number of steps");
  if (n >= 2) s.nontrivial();
  const double t = static_cast<double>(Tf) / M, tm = tmf;
  const double eps = 4e-6 + 1e-6 * n;
  double sum = 0;
  for (float v : tau) {
    PBT_CHECK(std::isfinite(v) && v > 0, "a step is not positive: " << v);
    sum += v;
  }
  PBT_CHECK(std::fabs(sum - t) <= eps * t, "the steps sum to " << sum << ", requested " << t);
  // minimal: n steps reach at most tau_max*n(n+1)/3
  PBT_CHECK(t <= tm * n * (n + 1.0) / 3 * (1 + 4e-6), n << " steps cannot reach the requested time stably");
  if (n > 0)
    PBT_CHECK(t >= tm * n * (n - 1.0) / 3 * (1 - 4e-6), n << " steps used although " << n - 1 << " would be enough");
  // the steps themselves: q * tau_max / (2 cos^2(pi (2k+1)/(4n+2))), in any order
  if (n > 0) {
    std::vector<double> want, got(tau.begin(), tau.end());
    const double q = 3 * t / (tm * n * (n + 1.0));
    for (int k = 0; k < n; ++k) {
      const double c = std::cos(M_PI * (2 * k + 1.0) / (4.0 * n + 2));
      want.push_back(q * tm / (2 * c * c));
    }
    if (reorder) std::sort(got.begin(), got.end());
    for (int k = 0; k < n; ++k)
      PBT_CHECK(std::fabs(got[k] - want[k]) <= 4 * eps * want[k],
                "step " << k << (reorder ? " (sorted)" : "") << " is " << got[k] << ", scheme gives " << want[k]);
    // reordering only permutes
    std::vector<float> other;
    const int m = fed_tau_by_process_time(Tf, M, tmf, !reorder, other);
    PBT_EQ(m, n, "the number of steps depends on the order");
    std::vector<float> a(tau), b(other);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    PBT_CHECK(a == b, "reordering changes the steps");
  }
}

PBT_PROP(primes, "odd numbers above 100", 8000, 60000) {
  const int n = s.chance(1, 2) ? s.i(-3, 2000) : s.i(2000, 200000);
  s << "n=" << n;
  if (n > 100 && (n & 1)) s.nontrivial();
  PBT_EQ(fed_is_prime_internal(n), isPrime(n), "primality");
}

// ---------------------------------------------------------------- diffusion step
PBT_PROP(diffusion_step, "textured image with a varying conductivity", 20000, 300000) {
  const int w = s.size(2, 40), h = s.size(2, 40);
  s << w << "x" << h << " ";
  const double lo = s.oneOf<double>({0, -1, 0.25, 100}), hi = lo + s.oneOf<double>({1, 1e-3, 255});
  GenImage g = genImage(s, w, h, lo, hi);
  GenImage c = genImage(s, w, h, s.real(0, 1), 1.0);
  const float tau = static_cast<float>(s.real(0, 0.25));
  s << "tau=" << tau;
  if (g.textured && c.textured && tau > 0) s.nontrivial();
  const Img in = toImg(g.m), cc = toImg(c.m);
  cv::Mat Lstep(h, w, CV_32F, cv::Scalar(3.f));
  nld_step_scalar(g.m, c.m, Lstep, tau);
  Img want(in.size());
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      const size_t p = static_cast<size_t>(y) * w + x;
      double f = 0;
      const int dx[4] = {1, -1, 0, 0}, dy[4] = {0, 0, 1, -1};
      for (int k = 0; k < 4; ++k) {
        const int X = x + dx[k], Y = y + dy[k];
        if (X < 0 || Y < 0 || X >= w || Y >= h) continue;
        const size_t q = static_cast<size_t>(Y) * w + X;
        f += 0.5 * (cc[p] + cc[q]) * (in[q] - in[p]);
      }
      want[p] = in[p] + tau * f;
    }
  const double range = hi - lo, mag = std::max(std::fabs(lo), std::fabs(hi));
  const double tol = 1e-6 * (range + mag);
  compareImg(g.m, want, tol, "diffusion step");
  double mn = 1e300, mx = -1e300, s0 = 0, s1 = 0, o0 = 1e300, o1 = -1e300;
  for (double v : in) s0 += v, mn = std::min(mn, v), mx = std::max(mx, v);
  const Img out = toImg(g.m);
  for (double v : out) s1 += v, o0 = std::min(o0, v), o1 = std::max(o1, v);
  PBT_CHECK(o0 >= mn - tol && o1 <= mx + tol, "values leave the range of the input: [" << o0 << "," << o1 << "] from ["
                                                                                       << mn << "," << mx << "]");
  PBT_CHECK(std::fabs(s1 - s0) / in.size() <= tol, "mean brightness changes from " << s0 / in.size() << " to "
                                                                                   << s1 / in.size());
}

// ---------------------------------------------------------------- conductivity
PBT_PROP(conductivity, "a gradient image with varying values", 20000, 300000) {
  const int w = s.size(1, 30), h = s.size(1, 30), kind = s.i(0, 3);
  const float k = static_cast<float>(s.logReal(1e-3, 3));
  s << w << "x" << h << " function " << kind << " k=" << k << " ";
  const double a = s.oneOf<double>({0, 1e-3, 0.1, 1, 10}), b = s.oneOf<double>({0, 1e-3, 0.1, 1, 10});
  GenImage lx = genImage(s, w, h, -a, a), ly = genImage(s, w, h, -b, b);
  if ((lx.textured && a > 0) || (ly.textured && b > 0)) s.nontrivial();
  cv::Mat dst(h, w, CV_32F, cv::Scalar(9.f));
  const bool inplace = s.chance(1, 5);
  const Img X = toImg(lx.m), Y = toImg(ly.m);
  cv::Mat& out = inplace ? lx.m : dst;
  switch (kind) {
    case 0: pm_g1(lx.m, ly.m, out, k); break;
    case 1: pm_g2(lx.m, ly.m, out, k); break;
    case 2: weickert_diffusivity(lx.m, ly.m, out, k); break;
    default: charbonnier_diffusivity(lx.m, ly.m, out, k); break;
  }
  Img want(X.size());
  for (size_t i = 0; i < X.size(); ++i) {
    const double q = (X[i] * X[i] + Y[i] * Y[i]) / (static_cast<double>(k) * k);
    want[i] = kind == 0 ? std::exp(-q) : kind == 1 ? 1 / (1 + q)
              : kind == 2 ? (q > 0 ? 1 - std::exp(-3.315 / (q * q * q * q)) : 1.0) : 1 / std::sqrt(1 + q);
  }
  compareImg(out, want, 1e-5, "conductivity");
  for (double v : toImg(out)) PBT_CHECK(v >= -1e-6 && v <= 1 + 1e-6, "conductivity " << v << " outside [0,1]");
}

// ---------------------------------------------------------------- smoothing and derivatives
PBT_PROP(gaussian_filter, "textured image wider than the kernel", 6000, 100000) {
  const int w = s.chance(1, 4) ? s.size(1, 12) : s.i(10, 60), h = s.chance(1, 4) ? s.size(1, 12) : s.i(10, 60);
  const double sg = s.real(0.5, 5);
  const float sigma = static_cast<float>(sg);
  size_t kx = 0, ky = 0;
  if (s.boolean()) {
    kx = s.i(0, 15);
    ky = s.i(0, 15);
  }
  s << w << "x" << h << " sigma=" << sigma << " kernel " << kx << "x" << ky << " ";
  GenImage g = genImage(s, w, h, 0, 1);
  int nx = static_cast<int>(kx), ny = static_cast<int>(ky);
  if (sigma > kx || sigma > ky || kx == 0 || ky == 0) {
    const double f = 2.0 * (1.0 + (sigma - 0.8) / 0.3);
    if (std::fabs(f - std::round(f)) < 1e-6) throw pbt::Discard();
    nx = ny = static_cast<int>(std::ceil(f));
  }
  nx |= 1;
  ny |= 1;
  if (g.textured && w > nx && h > ny) s.nontrivial();
  auto kern = [&](int n) {
    std::vector<double> k(n);
    double sum = 0;
    for (int i = 0; i < n; ++i) sum += k[i] = std::exp(-0.5 * (i - n / 2) * (i - n / 2) / (double(sigma) * sigma));
    for (double& v : k) v /= sum;
    return k;
  };
  const Img in = toImg(g.m), want = sepConv(in, w, h, kern(nx), kern(ny), clampi);
  cv::Mat dst;
  const bool inplace = s.chance(1, 4);
  if (inplace) dst = g.m;
  gaussian_2D_convolution(g.m, dst, kx, ky, sigma);
  PBT_EQ(dst.size(), cv::Size(w, h), "size of the smoothed image");
  compareImg(dst, want, 1e-5, "Gaussian smoothing");
}

PBT_PROP(derivatives, "textured image, scale above 1", 8000, 150000) {
  const int w = s.size(1, 40), h = s.size(1, 40);
  const int order = s.i(0, 1);  // 0: d/dx, 1: d/dy
  const bool usual = s.chance(1, 4);
  const int scale = usual ? 1 : s.size(1, 26);
  s << w << "x" << h << " order " << (order ? "y" : "x") << " scale " << scale << (usual ? " plain" : "") << " ";
  GenImage g = genImage(s, w, h, 0, 1, false);
  if (g.textured && scale > 1) s.nontrivial();
  const Img in = toImg(g.m);
  // smoothing 3-10-3 (normalised by 16 at scale 1, 1/(2 s (w+2)), w=10/3 otherwise), difference of points +-s
  const int r = usual ? 1 : scale;
  std::vector<double> d(2 * r + 1, 0.0), sm(2 * r + 1, 0.0);
  d[0] = -1;
  d[2 * r] = 1;
  const double ww = 10.0 / 3.0;
  double unit = usual ? 3.0 : 1.0 / (2.0 * scale * (ww + 2.0));
  sm[0] = unit;
  sm[2 * r] = unit;
  sm[r] = ww * unit;
  const Img want = order == 0 ? sepConv(in, w, h, d, sm, reflect101) : sepConv(in, w, h, sm, d, reflect101);
  cv::Mat dst;
  if (usual)
    image_derivatives_scharr(g.m, dst, order == 0, order == 1);
  else
    compute_scharr_derivatives(g.m, dst, order == 0, order == 1, scale);
  PBT_EQ(dst.size(), cv::Size(w, h), "size of the derivative");
  compareImg(dst, want, usual ? 2e-5 : 2e-6, "Scharr derivative");
}

// Kernels alone, up to large scales.
PBT_PROP(derivative_kernels, "scale of two or more", 2000, 20000) {
  const int dx = s.i(0, 1), dy = s.i(0, 1);
  if (dx + dy == 0) throw pbt::Discard();
  const int scale = s.chance(1, 4) ? s.i(1, 1500) : s.size(1, 60);
  if (scale == 1 && dx + dy != 1) throw pbt::Discard();
  s << "dx=" << dx << " dy=" << dy << " scale=" << scale;
  if (scale > 1) s.nontrivial();
  cv::Mat kx, ky;
  compute_derivative_kernels(kx, ky, dx, dy, scale);
  const double ww = 10.0 / 3.0, norm = 1.0 / (2.0 * scale * (ww + 2.0));
  for (int k = 0; k < 2; ++k) {
    const cv::Mat& m = k ? ky : kx;
    const int order = k ? dy : dx;
    PBT_EQ(static_cast<int>(m.total()), 2 * scale + 1, "kernel length");
    const float* p = m.ptr<float>(0);
    for (int i = 0; i < 2 * scale + 1; ++i) {
      double want = 0;
      const bool end = i == 0 || i == 2 * scale, mid = i == scale;
      if (order == 1) want = i == 0 ? -1 : i == 2 * scale ? 1 : 0;
      if (order == 0) want = mid ? ww * norm : end ? norm : 0;
      // at scale 1 OpenCV's normalised Scharr kernel: 3-10-3 over 16 split between the two kernels
      if (scale == 1) {
        const double f = order == 0 ? 1.0 : 1.0;
        (void)f;
        const double got = p[i], ref = order == 0 ? (mid ? 10. : 3.) : (i == 0 ? -1. : i == 2 ? 1. : 0.);
        const double unit = order == 0 ? std::fabs(p[0]) / 3. : std::fabs(p[2]);
        PBT_CHECK(std::fabs(got - ref * unit) < 1e-6, "Scharr kernel shape");
        continue;
      }
      PBT_CHECK(std::fabs(p[i] - want) <= 1e-6, "kernel " << k << " coefficient " << i << " is " << p[i] << ", expected "
                                                          << want);
    }
  }
  if (scale == 1) {
    // together they differentiate a unit ramp to 1
    double a = 0;
    for (int y = 0; y < 3; ++y)
      for (int x = 0; x < 3; ++x)
        a += kx.ptr<float>(0)[x] * ky.ptr<float>(0)[y] * (dx ? x - 1 : y - 1);
    PBT_CHECK(std::fabs(a - 1) < 1e-5, "the normalised kernel turns a unit ramp into " << a);
  } else if (dx + dy == 1) {
    const int n = 2 * scale + 1;
    double sm = 0, df = 0;
    const cv::Mat &D = dx ? kx : ky, &S = dx ? ky : kx;
    for (int i = 0; i < n; ++i) sm += S.ptr<float>(0)[i], df += D.ptr<float>(0)[i] * (i - scale);
    PBT_CHECK(std::fabs(sm * df - 1) < 1e-5, "the kernel turns a unit ramp into " << sm * df);
  }
}

// ---------------------------------------------------------------- contrast percentile
PBT_PROP(contrast_percentile, "textured image of at least 5x5", 8000, 120000) {
  const int w = s.chance(1, 4) ? s.size(1, 12) : s.i(5, 50), h = s.chance(1, 4) ? s.size(1, 12) : s.i(5, 50);
  const size_t nbins = s.oneOf<int>({300, 1, 2, 10, 77, 1000});
  const float perc = static_cast<float>(s.chance(1, 3) ? 0.7 : s.real(0, 1));
  const float sg = static_cast<float>(s.real(0.5, 3));
  s << w << "x" << h << " bins " << nbins << " percentile " << perc << " sigma " << sg << " ";
  GenImage g = genImage(s, w, h, 0, s.oneOf<double>({1, 1e-2, 255}));
  if (g.textured && w >= 5 && h >= 5) s.nontrivial();
  const float k = compute_k_percentile(g.m, perc, sg, nbins, 0, 0);
  // gradient magnitudes of the smoothed image away from the border
  const double f = 2.0 * (1.0 + (sg - 0.8) / 0.3);
  if (std::fabs(f - std::round(f)) < 1e-6) throw pbt::Discard();
  const int n = static_cast<int>(std::ceil(f)) | 1;
  std::vector<double> kern(n);
  double sum = 0;
  for (int i = 0; i < n; ++i) sum += kern[i] = std::exp(-0.5 * (i - n / 2) * (i - n / 2) / (double(sg) * sg));
  for (double& v : kern) v /= sum;
  const Img sm = sepConv(toImg(g.m), w, h, kern, kern, clampi);
  const Img dx = sepConv(sm, w, h, {-1, 0, 1}, {3, 10, 3}, reflect101),
            dy = sepConv(sm, w, h, {3, 10, 3}, {-1, 0, 1}, reflect101);
  std::vector<double> mod;
  const double eps = 3e-5 * (1 + maxAbs(sm));
  double hmax = 0;
  for (int y = 1; y < h - 1; ++y)
    for (int x = 1; x < w - 1; ++x) {
      const size_t p = static_cast<size_t>(y) * w + x;
      const double m = std::hypot(dx[p], dy[p]);
      hmax = std::max(hmax, m);
      mod.push_back(m);
    }
  if (hmax <= 20 * eps) {  // no gradient to speak of
    PBT_CHECK(std::isfinite(k) && k >= 0 && (k <= hmax + eps || k == 0.03f), "contrast " << k << " of a flat image");
    return;
  }
  PBT_CHECK(std::isfinite(k) && k >= 0 && k <= hmax + eps, "contrast " << k << " outside [0, " << hmax << "]");
  // The contrast is the upper edge of the histogram bin in which the requested share of the
  // (non-zero) gradient magnitudes is reached.
  const double bin = hmax / nbins;
  long below = 0, below_prev = 0, npos = 0, npos_max = 0;
  for (double m : mod) {
    npos += m > eps;
    npos_max += 1;
    below += m <= k + 2 * eps + 1e-4 * hmax;
    below_prev += m > eps && m < k - bin - 2 * eps - 1e-4 * hmax;
  }
  const double need_lo = std::floor(npos * double(perc)) - 1, need_hi = std::floor(npos_max * double(perc)) + 1;
  PBT_CHECK(below >= need_lo, "only " << below << " of " << npos << " gradients lie below the contrast " << k
                                      << ", share requested " << perc);
  PBT_CHECK(k == 0.f || below_prev <= need_hi, below_prev << " of " << npos_max << " gradients lie a bin below the contrast "
                                                          << k << " already, share requested " << perc);
  // on a bin edge
  const double q = k / bin;
  PBT_CHECK(std::fabs(q - std::round(q)) <= 1e-2 + nbins * 2 * eps / hmax, "contrast is not a bin edge: " << q);
}

// ---------------------------------------------------------------- neighbourhood maximum, scaling
PBT_PROP(neighbourhood, "inner pixel", 40000, 600000, 1) {
  const int w = s.size(1, 8), h = s.size(1, 8), levels = s.i(1, 6);
  cv::Mat m(h, w, CV_32F);
  s << w << "x" << h << ":";
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      m.at<float>(y, x) = static_cast<float>(s.i(0, levels)) - 2;
      s << (x ? " " : "\n") << m.at<float>(y, x);
    }
  const int row = s.i(0, h - 1), col = s.i(0, w - 1), d = s.i(0, 3);
  const bool same = s.boolean();
  const float v = same || s.boolean() ? m.at<float>(row, col) : static_cast<float>(s.i(0, levels)) - 2;
  s << "\nrow " << row << " col " << col << " radius " << d << " value " << v << " same " << same;
  if (row > 0 && col > 0 && row < h - 1 && col < w - 1 && d > 0) s.nontrivial();
  bool want = true;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
      if (std::abs(y - row) <= d && std::abs(x - col) <= d && !(same && y == row && x == col))
        want = want && m.at<float>(y, x) <= v;
  PBT_EQ(check_maximum_neighbourhood(m, d, v, row, col, same), want, "maximum over the neighbourhood");
}

PBT_PROP(min_max_scale, "varying image", 15000, 200000) {
  const int w = s.size(1, 20), h = s.size(1, 20);
  s << w << "x" << h << " ";
  const double lo = s.oneOf<double>({0, -5, 1e-3, 2000, -1e6, -3}), hi = lo + s.oneOf<double>({1, 3, 255, 1e4, 2});
  GenImage g = genImage(s, w, h, lo, hi);
  float mn = 1, mx = 1;
  compute_min_32F(g.m, mn);
  compute_max_32F(g.m, mx);
  float a = INFINITY, b = -INFINITY;
  for (double v : toImg(g.m)) a = std::min<float>(a, v), b = std::max<float>(b, v);
  PBT_EQ(mn, a, "minimum of the image");
  PBT_EQ(mx, b, "maximum of the image");
  if (a == b) return;
  s.nontrivial();
  const Img in = toImg(g.m);
  Img want(in.size());
  for (size_t i = 0; i < in.size(); ++i) want[i] = (in[i] - a) / (double(b) - a);
  const double tol = 1e-6 * (1 + std::max(std::fabs(a), std::fabs(b)) / (double(b) - a));
  cv::Mat dst;
  copy_and_convert_scale(g.m, dst);
  compareImg(dst, want, tol, "copied image scaled to [0,1]");
  compareImg(g.m, in, 0, "source of copy_and_convert_scale");
  convert_scale(g.m);
  compareImg(g.m, want, tol, "image scaled to [0,1]");
}

// ---------------------------------------------------------------- detection and description
namespace {
struct Level {
  double esigma, etime;
  int sigma_size, octave, sublevel;
  cv::Mat Lt, Lsmooth, Ldet;
};

// u := (I - 2 tau A)^-1 u along one line, A the 1-D diffusion operator with half-sum conductivities.
void aosLine(const std::vector<double>& u, const std::vector<double>& c, double tau, std::vector<double>* x) {
  const int n = static_cast<int>(u.size());
  std::vector<double> a(n, 1.0), b(n, 0.0), d(u);
  for (int i = 0; i + 1 < n; ++i) {
    const double g = tau * (c[i] + c[i + 1]);
    a[i] += g;
    a[i + 1] += g;
    b[i] = -g;
  }
  for (int i = 1; i < n; ++i) {
    const double f = b[i - 1] / a[i - 1];
    a[i] -= f * b[i - 1];
    d[i] -= f * d[i - 1];
  }
  x->assign(n, 0.0);
  for (int i = n - 1; i >= 0; --i) (*x)[i] = (d[i] - (i + 1 < n ? b[i] * (*x)[i + 1] : 0.0)) / a[i];
}

void aos(cv::Mat& L, const cv::Mat& c, double tau) {
  const int w = L.cols, h = L.rows;
  cv::Mat out(h, w, CV_64F, cv::Scalar(0));
  std::vector<double> u, k, x;
  for (int y = 0; y < h; ++y) {
    u.assign(w, 0);
    k.assign(w, 0);
    for (int i = 0; i < w; ++i) u[i] = L.at<float>(y, i), k[i] = c.at<float>(y, i);
    aosLine(u, k, tau, &x);
    for (int i = 0; i < w; ++i) out.at<double>(y, i) += 0.5 * x[i];
  }
  for (int i = 0; i < w; ++i) {
    u.assign(h, 0);
    k.assign(h, 0);
    for (int y = 0; y < h; ++y) u[y] = L.at<float>(y, i), k[y] = c.at<float>(y, i);
    aosLine(u, k, tau, &x);
    for (int y = 0; y < h; ++y) out.at<double>(y, i) += 0.5 * x[y];
  }
  out.convertTo(L, CV_32F);
}

// The scale space, put together from the individually checked filters.
std::vector<Level> scaleSpace(const cv::Mat& img, const KAZEOptions& o) {
  std::vector<Level> ev;
  for (int i = 0; i < o.omax; ++i)
    for (int j = 0; j < o.nsublevels; ++j) {
      Level l;
      l.esigma = o.soffset * std::pow(2.0, double(j) / o.nsublevels + i);
      l.etime = 0.5 * l.esigma * l.esigma;
      l.sigma_size = static_cast<int>(l.esigma + 0.5);
      l.octave = i;
      l.sublevel = j;
      ev.push_back(l);
    }
  if (ev.empty()) return ev;
  gaussian_2D_convolution(img, ev[0].Lt, 0, 0, o.soffset);
  gaussian_2D_convolution(ev[0].Lt, ev[0].Lsmooth, 0, 0, o.sderivatives);
  const float k = compute_k_percentile(img, o.kcontrast_percentile, o.sderivatives, o.kcontrast_nbins, 0, 0);
  cv::Mat Lx, Ly, c(img.size(), CV_32F), step(img.size(), CV_32F);
  for (size_t i = 1; i < ev.size(); ++i) {
    ev[i].Lt = ev[i - 1].Lt.clone();
    gaussian_2D_convolution(ev[i - 1].Lt, ev[i].Lsmooth, 0, 0, o.sderivatives);
    image_derivatives_scharr(ev[i].Lsmooth, Lx, 1, 0);
    image_derivatives_scharr(ev[i].Lsmooth, Ly, 0, 1);
    switch (o.diffusivity) {
      case PM_G1: pm_g1(Lx, Ly, c, k); break;
      case PM_G2: pm_g2(Lx, Ly, c, k); break;
      case WEICKERT: weickert_diffusivity(Lx, Ly, c, k); break;
      default: charbonnier_diffusivity(Lx, Ly, c, k);
    }
    const double T = ev[i].etime - ev[i - 1].etime;
    if (o.use_fed) {
      std::vector<float> tau;
      const int n = fed_tau_by_process_time(static_cast<float>(T), 1, 0.25f, true, tau);
      for (int j = 0; j < n; ++j) nld_step_scalar(ev[i].Lt, c, step, tau[j]);
    } else {
      aos(ev[i].Lt, c, T);
    }
  }
  for (Level& l : ev) {
    cv::Mat dx, dy, dxx, dyy, dxy;
    compute_scharr_derivatives(l.Lsmooth, dx, 1, 0, l.sigma_size);
    compute_scharr_derivatives(l.Lsmooth, dy, 0, 1, l.sigma_size);
    compute_scharr_derivatives(dx, dxx, 1, 0, l.sigma_size);
    compute_scharr_derivatives(dy, dyy, 0, 1, l.sigma_size);
    compute_scharr_derivatives(dx, dxy, 0, 1, l.sigma_size);
    l.Ldet.create(img.size(), CV_32F);
    const double q = std::pow(double(l.sigma_size), 4);
    for (int y = 0; y < img.rows; ++y)
      for (int x = 0; x < img.cols; ++x)
        l.Ldet.at<float>(y, x) = static_cast<float>(q * (double(dxx.at<float>(y, x)) * dyy.at<float>(y, x) -
                                                          double(dxy.at<float>(y, x)) * dxy.at<float>(y, x)));
  }
  return ev;
}

struct Result {
  std::vector<cv::KeyPoint> kpts, described;
  cv::Mat desc;
};
bool sameKp(const cv::KeyPoint& a, const cv::KeyPoint& b) {
  return a.pt == b.pt && a.size == b.size && a.angle == b.angle && a.response == b.response && a.octave == b.octave &&
         a.class_id == b.class_id;
}
bool sameKps(const std::vector<cv::KeyPoint>& a, const std::vector<cv::KeyPoint>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!sameKp(a[i], b[i])) return false;
  return true;
}
bool sameDesc(const cv::Mat& a, const cv::Mat& b) {
  if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) return false;
  for (int i = 0; i < a.rows; ++i)
    if (memcmp(a.ptr<float>(i), b.ptr<float>(i), sizeof(float) * a.cols) != 0) return false;
  return true;
}
void run(libKAZE::KAZE& k, const cv::Mat& img, Result* r) {
  PBT_EQ(k.Create_Nonlinear_Scale_Space(img), 0, "creating the scale space");
  k.Feature_Detection(r->kpts);
  r->described = r->kpts;
  k.Compute_Descriptors(r->described, r->desc);
}

KAZEOptions genOptions(Source& s, int w, int h) {
  KAZEOptions o;
  o.img_width = w;
  o.img_height = h;
  if (s.chance(2, 3)) o.soffset = static_cast<float>(s.real(1.0, 3.0));
  o.omax = s.i(1, 4);
  o.nsublevels = s.chance(1, 3) ? 4 : s.i(1, 6);
  o.diffusivity = static_cast<DIFFUSIVITY_TYPE>(s.i(0, 3));
  o.use_fed = !s.chance(1, 3);
  o.descriptor = static_cast<DESCRIPTOR_TYPE>(s.i(0, 11));
  if (s.boolean()) o.sderivatives = static_cast<float>(s.real(0.6, 2.0));
  o.dthreshold = static_cast<float>(s.chance(1, 3) ? 0.001 : s.logReal(1e-5, 5e-3));
  if (s.chance(1, 3)) o.kcontrast_percentile = static_cast<float>(s.real(0.3, 0.99));
  if (s.chance(1, 4)) o.kcontrast_nbins = s.oneOf<int>({10, 50, 1000});
  s << "soffset=" << o.soffset << " octaves=" << o.omax << " sublevels=" << o.nsublevels << " diffusivity="
    << o.diffusivity << (o.use_fed ? " FED" : " AOS") << " descriptor=" << o.descriptor << " sderivatives="
    << o.sderivatives << " threshold=" << o.dthreshold << " percentile=" << o.kcontrast_percentile << " bins="
    << o.kcontrast_nbins << "; ";
  return o;
}

bool extended(DESCRIPTOR_TYPE t) {
  return t == SURF_EXTENDED_UPRIGHT || t == SURF_EXTENDED || t == MSURF_EXTENDED_UPRIGHT || t == MSURF_EXTENDED ||
         t == GSURF_EXTENDED_UPRIGHT || t == GSURF_EXTENDED;
}
bool upright(DESCRIPTOR_TYPE t) { return (static_cast<int>(t) & 1) == 0; }

void checkDescriptors(const Result& r, const KAZEOptions& o) {
  PBT_EQ(r.desc.rows, static_cast<int>(r.kpts.size()), "one descriptor per keypoint");
  const int len = extended(o.descriptor) ? 128 : 64;
  PBT_EQ(r.desc.cols, len, "descriptor length");
  PBT_EQ(r.desc.type(), CV_32FC1, "descriptor type");
  PBT_EQ(r.described.size(), r.kpts.size(), "describing changes the number of keypoints");
  for (int i = 0; i < r.desc.rows; ++i) {
    const float* d = r.desc.ptr<float>(i);
    double n = 0;
    for (int j = 0; j < len; ++j) {
      PBT_CHECK(std::isfinite(d[j]), "coefficient " << j << " of descriptor " << i << " is not finite");
      n += double(d[j]) * d[j];
    }
    PBT_CHECK(std::fabs(std::sqrt(n) - 1) <= 1e-4, "descriptor " << i << " has norm " << std::sqrt(n));
    // sums of absolute responses bound the sums of responses
    for (int j = 0; j < len; j += 4)
      for (int k = 0; k < 2; ++k)
        PBT_CHECK(std::fabs(d[j + k]) <= d[j + k + 2] + 1e-5, "descriptor " << i << ": |sum| exceeds the sum of absolute values at "
                                                                            << j + k);
    cv::KeyPoint a = r.kpts[i], b = r.described[i];
    PBT_CHECK(std::isfinite(b.angle) && b.angle >= 0 && b.angle <= 2 * M_PI + 1e-4, "orientation " << b.angle);
    a.angle = b.angle;
    if (upright(o.descriptor)) PBT_CHECK(r.kpts[i].angle == b.angle, "an upright descriptor changes the orientation");
    PBT_CHECK(sameKp(a, b), "describing changes the keypoint");
  }
}
}  // namespace

PBT_PROP(detect, "two or more keypoints", 3000, 45000, 0, 8) {
  const int big = s.chance(1, 3) ? 120 : 60;
  const int w = s.chance(1, 12) ? s.i(2, 8) : s.i(8, big), h = s.chance(1, 12) ? s.i(2, 8) : s.i(8, big);
  s << w << "x" << h << " ";
  KAZEOptions o = genOptions(s, w, h);
  GenImage g = genImage(s, w, h, s.chance(1, 4) ? 0.3 : 0, 1);
  const cv::Mat keep = g.m.clone();
  Result r;
  {
    KAZEOptions oo = o;
    libKAZE::KAZE k(oo);
    run(k, g.m, &r);
    s.label(r.kpts.empty() ? "none" : r.kpts.size() < 10 ? "few" : "many");
    if (r.kpts.size() >= 2) s.nontrivial();
    compareImg(g.m, toImg(keep), 0, "input image");

    const int nlev = o.omax * o.nsublevels;
    for (const cv::KeyPoint& p : r.kpts) {
      PBT_CHECK(std::isfinite(p.pt.x) && std::isfinite(p.pt.y) && p.pt.x >= 0 && p.pt.y >= 0 && p.pt.x <= w - 1 &&
                    p.pt.y <= h - 1,
                "keypoint outside the image: " << p.pt);
      PBT_CHECK(p.class_id >= 0 && p.class_id < nlev, "level " << p.class_id << " was not configured");
      PBT_EQ(p.octave, p.class_id / o.nsublevels, "octave of level " << p.class_id);
      PBT_CHECK(p.octave >= 0 && p.octave < o.omax, "octave " << p.octave << " was not configured");
      // the scale of its level, moved by at most one sublevel; OpenCV sizes are diameters
      const double ideal = 2 * o.soffset * std::pow(2.0, double(p.class_id) / o.nsublevels),
                   fac = std::pow(2.0, 1.0 / o.nsublevels) * (1 + 1e-4);
      PBT_CHECK(p.size >= ideal / fac && p.size <= ideal * fac, "size " << p.size << " at level " << p.class_id);
      PBT_CHECK(p.response > o.dthreshold, "response " << p.response << " below the threshold");
    }
    checkDescriptors(r, o);

    // the order of the keypoints does not matter for their descriptors
    if (r.kpts.size() > 1) {
      std::vector<cv::KeyPoint> rev(r.kpts.rbegin(), r.kpts.rend());
      cv::Mat d;
      k.Compute_Descriptors(rev, d);
      for (int i = 0; i < d.rows; ++i)
        PBT_CHECK(memcmp(d.ptr<float>(i), r.desc.ptr<float>(d.rows - 1 - i), sizeof(float) * d.cols) == 0,
                  "the descriptor of a keypoint depends on the other keypoints");
    }
    // again with the same object and vectors, after another image
    if (s.boolean()) {
      GenImage other = genImage(s, w, h, 0, 1);
      run(k, other.m, &r);
      s << "(reused object after another image) ";
    }
    Result r2 = r;
    run(k, g.m, &r2);
    libKAZE::KAZE k3(oo);
    Result r3;
    run(k3, keep, &r3);
    PBT_CHECK(sameKps(r2.kpts, r3.kpts), "the same image gives " << r2.kpts.size() << " keypoints with a used detector, "
                                                                 << r3.kpts.size() << " with a new one, or they differ");
    PBT_CHECK(sameKps(r2.described, r3.described) && sameDesc(r2.desc, r3.desc), "descriptors differ between runs");
    r = r3;
  }
  // Against the scale space assembled from the checked filters.
  const std::vector<Level> ev = scaleSpace(keep, o);
  const int N = static_cast<int>(ev.size());
  for (const Level& l : ev)
    for (double v : toImg(l.Ldet))
      if (!std::isfinite(v)) {
        PBT_CHECK(r.kpts.empty() || g.textured, "keypoints in a flat image");
        return;
      }
  double big_det = 0;
  for (const Level& l : ev) big_det = std::max(big_det, maxAbs(toImg(l.Ldet)));
  const double tol = 2e-4 * big_det + 1e-7;
  std::vector<bool> used(r.kpts.size(), false);
  for (const cv::KeyPoint& p : r.kpts) {
    bool ok = false;
    const int l = p.class_id;
    PBT_CHECK(l >= 1 && l + 1 < N, "no extremum can be found at the first or last level");
    for (int y = std::max(1, int(p.pt.y) - 1); y <= std::min(h - 2, int(p.pt.y) + 2) && !ok; ++y)
      for (int x = std::max(1, int(p.pt.x) - 1); x <= std::min(w - 2, int(p.pt.x) + 2) && !ok; ++x) {
        if (std::fabs(x - p.pt.x) > 1 + 1e-4 || std::fabs(y - p.pt.y) > 1 + 1e-4) continue;
        const double v = ev[l].Ldet.at<float>(y, x);
        if (std::fabs(v - p.response) > tol + 2e-3 * std::fabs(v)) continue;
        bool mx = true;
        for (int dl = -1; dl <= 1; ++dl)
          for (int dy = -1; dy <= 1; ++dy)
            for (int dx = -1; dx <= 1; ++dx)
              mx = mx && ev[l + dl].Ldet.at<float>(y + dy, x + dx) <= v + tol + 2e-3 * std::fabs(v);
        ok = mx;
      }
    PBT_CHECK(ok, "keypoint " << p.pt << " level " << l << " response " << p.response
                              << " is no local maximum of the Hessian determinant in the scale space");
  }
  // every clear and isolated maximum is found, at its interpolated place
  struct Cand {
    int l, x, y;
    double v;
    bool clear;
  };
  std::vector<Cand> cands;
  for (int l = 1; l + 1 < N; ++l)
    for (int y = 1; y < h - 1; ++y)
      for (int x = 1; x < w - 1; ++x) {
        const double v = ev[l].Ldet.at<float>(y, x), t = tol + 2e-3 * std::fabs(v);
        if (v < o.dthreshold - t || v < 0.00001 - t) continue;
        bool weak = true, strong = v > o.dthreshold + t && v > 0.00001 + t;
        for (int dl = -1; dl <= 1 && weak; ++dl)
          for (int dy = -1; dy <= 1; ++dy)
            for (int dx = -1; dx <= 1; ++dx) {
              if (!dl && !dy && !dx) continue;
              const double u = ev[l + dl].Ldet.at<float>(y + dy, x + dx);
              if (u > v + t) weak = false;
              if (u > v - t) strong = false;
            }
        if (weak) cands.push_back({l, x, y, v, strong});
      }
  for (const Cand& c : cands) {
    if (!c.clear) continue;
    bool alone = true;
    for (const Cand& d : cands)
      if (&d != &c && std::abs(d.l - c.l) <= 1) {
        const double m = std::max(ev[d.l].sigma_size, ev[c.l].sigma_size) + 0.01;
        if ((d.x - c.x) * (d.x - c.x) + (d.y - c.y) * (d.y - c.y) <= m * m) alone = false;
      }
    if (!alone) continue;
    auto D = [&](int dl, int dy, int dx) { return double(ev[c.l + dl].Ldet.at<float>(c.y + dy, c.x + dx)); };
    cv::Matx33d A;
    cv::Vec3d b;
    A(0, 0) = D(0, 0, 1) + D(0, 0, -1) - 2 * D(0, 0, 0);
    A(1, 1) = D(0, 1, 0) + D(0, -1, 0) - 2 * D(0, 0, 0);
    A(2, 2) = D(1, 0, 0) + D(-1, 0, 0) - 2 * D(0, 0, 0);
    A(0, 1) = A(1, 0) = 0.25 * (D(0, 1, 1) + D(0, -1, -1) - D(0, -1, 1) - D(0, 1, -1));
    A(0, 2) = A(2, 0) = 0.25 * (D(1, 0, 1) + D(-1, 0, -1) - D(1, 0, -1) - D(-1, 0, 1));
    A(1, 2) = A(2, 1) = 0.25 * (D(1, 1, 0) + D(-1, -1, 0) - D(1, -1, 0) - D(-1, 1, 0));
    b(0) = -0.5 * (D(0, 0, 1) - D(0, 0, -1));
    b(1) = -0.5 * (D(0, 1, 0) - D(0, -1, 0));
    b(2) = -0.5 * (D(1, 0, 0) - D(-1, 0, 0));
    cv::Mat sv;
    cv::SVD::compute(cv::Mat(A), sv, cv::SVD::NO_UV);
    if (sv.at<double>(2) < 0.02 * sv.at<double>(0) || sv.at<double>(2) < 20 * tol) continue;
    const cv::Vec3d off = A.inv() * b;
    if (std::fabs(off(0)) > 0.9 || std::fabs(off(1)) > 0.9 || std::fabs(off(2)) > 0.9) continue;
    s.label("clear-maximum");
    bool found = false;
    for (const cv::KeyPoint& p : r.kpts) {
      const double scale = 2 * o.soffset * std::pow(2.0, (c.l + off(2)) / o.nsublevels);
      found = found || (p.class_id == c.l && std::fabs(p.pt.x - c.x - off(0)) < 0.1 &&
                        std::fabs(p.pt.y - c.y - off(1)) < 0.1 && std::fabs(p.size / scale - 1) < 0.1);
    }
    PBT_CHECK(found, "the clear maximum of the Hessian determinant at x=" << c.x << " y=" << c.y << " level " << c.l
                                                                        << " (value " << c.v << ", interpolated offset "
                                                                        << off << ") is not among the " << r.kpts.size()
                                                                        << " keypoints");
  }
}
