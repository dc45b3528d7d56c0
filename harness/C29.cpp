// C29: finite-difference Jacobi matrices are accurate, wrong ones are detected.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 2000000 : 100000; }

struct Sys {
	typedef mat jac_type;
	std::function<vec(const vec &)> f; std::function<mat(const vec &)> J;
	std::vector<vec> seen;
	long nj = 0;
	Sys() {}
	Sys(const Sys &) = delete;
	vec fun(const vec &y) { seen.push_back(y); return f(y); }
	mat jac(const vec &y) { ++nj; return J(y); }
};

// F(x) = A x + q + M s(B x) with a smooth s; d3 bounds the third derivatives.
static void make(Rng &r, Sys &s, int n, double &d3, bool linear, double scale)
{
	mat A = r.m(n, n) * scale, M = r.m(n, n) * scale, B = r.m(n, n);
	vec q = r.v(n) * scale;
	if (r.b(0.2)) A = arma::trimatu(A);
	int kind = r.i(0, 2);
	if (linear) {
		s.f = [=](const vec &y) { return vec(A * y + q); };
		s.J = [=](const vec &) { return A; };
		d3 = 0;
		return;
	}
	s.f = [=](const vec &y) { vec u = B * y; vec g = kind == 0 ? vec(arma::sin(u)) : kind == 1 ? vec(arma::exp(-arma::square(u))) : vec(u % u % u); return vec(A * y + q + M * g); };
	s.J = [=](const vec &y) { vec u = B * y; vec g = kind == 0 ? vec(arma::cos(u)) : kind == 1 ? vec(-2 * u % arma::exp(-arma::square(u))) : vec(3 * u % u); return mat(A + M * arma::diagmat(g) * B); };
	d3 = arma::norm(M, "inf") * (kind == 2 ? 6 : kind == 1 ? 8 : 1);
}

void run_case(long id, Rng &r)
{
	int n = r.b(0.1) ? r.i(6, 15) : r.i(1, 5);
	bool linear = id % 3 == 0;
	double scale = r.b(0.5) ? 1 : r.logu(1e-3, 1e3), d3;
	Sys s;
	make(r, s, n, d3, linear, scale);
	vec y = r.v(n) * r.logu(0.1, 3), y0 = y;
	double h = r.b(0.3) ? 1e-4 : r.logu(1e-6, 1e-2);
	std::string d = cat("n=", n, " scale=", scale, " h=", h, linear ? " linear" : "", " y=", y, " id ", id);
	rep().context = d;
	mat Ja = newton::approx_jacobi_matrix(y, s, h);
	RTM_CHECK(same_bits(y, y0), "point-changed", d);
	RTM_CHECK((int)Ja.n_rows == n && (int)Ja.n_cols == n, "size", d);
	if ((int)Ja.n_rows != n || (int)Ja.n_cols != n) return;
	mat Je = s.J(y);
	double fm = arma::norm(s.f(y), "inf") + scale * n;
	double tol = d3 * h * h + 1e-14 * n * fm / h + 2e-16 * (1 + arma::norm(y, "inf")) * arma::norm(Je, "inf") / h * 4;
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
		if (!(std::fabs(Ja(i, j) - Je(i, j)) <= tol)) { rep().violation("inaccurate", cat(d, ": entry ", i, ",", j, " is ", Ja(i, j), " instead of ", Je(i, j), ", tolerance ", tol)); i = n; break; }
	// every evaluation is within h of the point, in one component
	for (auto &x : s.seen) {
		vec e = arma::abs(x - y);
		double m = arma::max(e);
		RTM_CHECK(m <= h * (1 + 1e-8) && arma::accu(e > 1e-3 * h) <= 1, "far-evaluation", cat(d, ": at ", x));
	}
	rep().count("entries", n * n); rep().count("evaluations", s.seen.size());
	// The verification: a correct matrix passes, one wrong entry does not.
	bool ok = newton::verify_jacobi_matrix(y, s);
	RTM_CHECK(same_bits(y, y0), "point-changed", d);
	RTM_CHECK(ok, "correct-rejected", d);
	RTM_CHECK(s.nj > 0, "jac-not-asked", d);
	rep().count("correct-verified");
	int bi = r.i(0, n - 1), bj = r.i(0, n - 1);
	double delta = scale * r.logu(0.1, 10) * (r.b() ? 1 : -1);
	auto J = s.J;
	s.J = [=](const vec &x) { mat m = J(x); m(bi, bj) += delta; return m; };
	ok = newton::verify_jacobi_matrix(y, s);
	RTM_CHECK(!ok, "wrong-accepted", cat(d, ": entry ", bi, ",", bj, " off by ", delta));
	rep().count("wrong-verified");
	rep().nontrivial(d); rep().sample(d);
}
