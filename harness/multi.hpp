// What the Adams-Bashforth and BDF checks share: reference coefficients from
// the defining integrals, the grid oracle and the start-up oracle.
#ifndef MULTI_HPP
#define MULTI_HPP
#include "multistep.hpp"
#include "common.hpp"
namespace rtm {

// AB-q: integral over [0,1] of the polynomial through (−k, f_k).
inline std::vector<long double> ab_coeffs(int q)
{
	std::vector<long double> c(q);
	for (int k = 0; k < q; ++k) {
		std::vector<long double> p(1, 1.0L);
		for (int j = 0; j < q; ++j) if (j != k) { // times (s + j) / (j - k)
			std::vector<long double> n(p.size() + 1, 0.0L);
			for (std::size_t m = 0; m < p.size(); ++m) { n[m] += p[m] * j / (j - k); n[m + 1] += p[m] / (j - k); }
			p = n;
		}
		long double s = 0;
		for (std::size_t m = 0; m < p.size(); ++m) s += p[m] / (m + 1);
		c[k] = s;
	}
	return c;
}
// BDF-q: derivative at 0 of the polynomial through (0, y_{n+1}), (−1, y_n), ...
// scaled so that the coefficient of y_{n+1} is 1: y_{n+1} + sum a_k y_{n−k} = beta h f.
inline void bdf_coeffs(int q, std::vector<long double> &a, long double &beta)
{
	std::vector<long double> d(q + 1, 0.0L);
	for (int k = 0; k <= q; ++k) for (int j = 0; j <= q; ++j) if (j != k) {
		long double p = 1.0L / (j - k);
		for (int m = 0; m <= q; ++m) if (m != k && m != j) p *= (long double)m / (m - k);
		d[k] += p;
	}
	beta = 1 / d[0];
	a.assign(q, 0);
	for (int k = 0; k < q; ++k) a[k] = d[k + 1] / d[0];
}

// dt as it is used: cut to the interval.
inline double used_dt(double t0, double t1, double dt) { return t0 + dt > t1 ? t1 - t0 : dt; }

// Times: t0, t0 + dt, ...; the end is covered, and by no more than one step
// unless the start-up already covers it.
template <typename S> bool check_grid(const S &s, const Problem &p, double dt, std::size_t startup, const std::string &d)
{
	auto &t = s.t_vals;
	RTM_CHECK(t.size() == s.y_vals.size(), "row-sizes", d);
	if (t.empty() || t.size() != s.y_vals.size()) { RTM_CHECK(!t.empty(), "no-rows", d); return false; }
	RTM_CHECK(same_bits(t[0], p.t0) && same_bits(s.y_vals[0], p.y0), "first-row", d);
	for (auto &y : s.y_vals) if ((int)y.n_elem != p.dim || !y.is_finite()) { rep().violation("bad-row", cat(d, ": ", y)); return false; }
	double tol = 4e-16 * t.size() * (std::fabs(p.t0) + std::fabs(t.back()) + 1e-300);
	for (std::size_t k = 1; k < t.size(); ++k)
		if (!(std::fabs(t[k] - (p.t0 + k * dt)) <= tol)) { rep().violation("grid", cat(d, ": row ", k, " at ", t[k], ", not ", p.t0 + k * dt)); return false; }
	if (s.status == SUCCESS) {
		RTM_CHECK(t.back() >= p.t1, "end-not-reached", cat(d, ": last row at ", t.back()));
		if (t.size() > startup) RTM_CHECK(t.back() - dt < p.t1 + tol, "beyond-end", cat(d, ": last row at ", t.back()));
	}
	return true;
}
// Start-up rows against the exact solution.
template <typename S> void check_startup(const S &s, const Problem &p, std::size_t rows, double amp, const std::string &d)
{
	for (std::size_t k = 1; k < rows && k < s.t_vals.size(); ++k) {
		vec x = p.exact(s.t_vals[k]);
		double e = arma::norm(s.y_vals[k] - x, "inf"), b = 2e-6 * amp * (1 + arma::norm(x, "inf") + arma::norm(p.y0, "inf"));
		RTM_CHECK(e <= b, "start-up", cat(d, ": row ", k, " is ", s.y_vals[k], ", exact ", x, ", error ", e));
		rep().count("start-up-rows");
	}
}
} // namespace rtm
#endif
