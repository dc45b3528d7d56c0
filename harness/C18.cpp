// C18: the solver of the implicit stage equations delivers stages that satisfy
// them, or says that it failed.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 400000 : 30000; }

static double norm2(const vec &v) { return std::sqrt(arma::dot(v, v)); }

struct Out { int status; vec Y; mat J; newton::status st; std::size_t nf, nj; };

static Out solve(int variant, Fun &F, const vec &y, double t, double dt, const irk::solver_coeffs &sc, int maxit, int refresh, double xtol, double Rtol)
{
	Out o;
	o.nf = 7; o.nj = 11; // counted on top of what is there
	o.st.conv_status = 77; o.st.res = -1; o.st.iters = -1;
	o.J.set_size(y.n_elem, y.n_elem); o.J.fill(12345);
	switch (variant) {
	case 0: o.status = irk::newton_solve_stages<Fun, true, false>(F, y, t, dt, sc, maxit, refresh, xtol, Rtol, o.Y, o.J, o.st, o.nf, o.nj); break;
	case 1: o.status = irk::newton_solve_stages<Fun, false, false>(F, y, t, dt, sc, maxit, refresh, xtol, Rtol, o.Y, o.J, o.st, o.nf, o.nj); break;
	case 2: o.status = irk::newton_solve_stages<Fun, true, true>(F, y, t, dt, sc, maxit, refresh, xtol, Rtol, o.Y, o.J, o.st, o.nf, o.nj); break;
	default: o.status = irk::newton_solve_stages<Fun, false, true>(F, y, t, dt, sc, maxit, refresh, xtol, Rtol, o.Y, o.J, o.st, o.nf, o.nj); break;
	}
	o.nf -= 7; o.nj -= 11;
	return o;
}

// Y_i - dt sum_j a_ij f(t + c_j dt, y + Y_j), from the independent tableau.
static vec residual(const Problem &p, const ref::Tableau &T, const vec &y, double t, double dt, const vec &Y, double *lip)
{
	int s = T.b.size(), n = p.dim;
	std::vector<vec> k(s);
	for (int j = 0; j < s; ++j) {
		vec yj = y + Y.subvec(j * n, j * n + n - 1);
		k[j] = p.f(t + T.c[j] * dt, yj);
		if (lip) *lip = std::max(*lip, arma::norm(p.J(t + T.c[j] * dt, yj), "fro"));
	}
	vec R = Y;
	for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) R.subvec(i * n, i * n + n - 1) -= dt * T.A[i][j] * k[j];
	return R;
}

// Exactly singular: implicit Euler, y' = J y with an eigenvalue 1/dt.
static void singular(Rng &r)
{
	int n = r.i(1, 4);
	double dt = std::ldexp(1.0, r.i(-6, 2)), t = r.u(-2, 2);
	vec l = r.v(n, -3, -0.5);
	int k = r.i(0, n - 1);
	l(k) = 1 / dt;
	Problem p; p.dim = n;
	mat A = arma::diagmat(l);
	vec g = r.v(n);
	if (r.b()) g(k) = 0;
	p.f = [A, g](double, const vec &y) { return vec(A * y + g); };
	p.J = [A](double, const vec &) { return A; };
	vec y = r.v(n, 0.5, 2);
	if (r.b(0.2)) { y.zeros(); g(k) = r.b(0.5) ? 0 : 1; p.f = [A, g](double, const vec &z) { return vec(A * z + g); }; }
	bool solvable = std::fabs(A(k, k) * y(k) + g(k)) == 0; // 0 * Y = dt f_k(y)
	Trace tr;
	Fun F(p, tr);
	int v = r.i(0, 3);
	std::string d = cat("singular: implicit Euler, dt=", dt, " diag(J)=", l, " g=", g, " y=", y, " variant=", v);
	rep().context = d;
	Out o = solve(v, F, y, t, dt, irk::get_coefficients(irk::IMPLICIT_EULER), 100, r.i(0, 3), 1e-9, 1e-9);
	rep().count("singular");
	if (!solvable) RTM_CHECK(o.status != newton::SUCCESS, "success-on-singular", d);
	else if (o.status == newton::SUCCESS) RTM_CHECK(norm2(residual(p, tableau(irk_methods()[0]), y, t, dt, o.Y, nullptr)) < 1e-6, "false-success", d);
	rep().nontrivial(d);
}

void run_case(long id, Rng &r)
{
	if (id % 40 == 0) return singular(r);
	const Method &m = irk_methods()[id % irk_methods().size()];
	const ref::Tableau &T = tableau(m);
	irk::solver_coeffs sc = irk::get_coefficients(m.id);
	Problem p = p_any(r, true);
	int s = T.b.size(), n = p.dim;
	double span = p.t1 - p.t0, dt = span * r.logu(1e-4, 2), t = p.t0 + span * r.u();
	vec y = p.exact ? p.exact(t) : p.y0;
	if (r.b(0.5)) y += 0.3 * r.v(n);
	if (r.b(0.1)) { // a state far from the origin that changes little
		p = Problem(); p.name = "far"; p.dim = n = r.i(1, 4);
		p.t0 = t; p.t1 = t + span; dt = span * r.logu(1e-3, 0.5);
		y = r.v(n, 0.5, 1) * r.logu(1e2, 1e6) * (r.b() ? 1 : -1);
		double K = r.logu(0.05, 1) / dt;
		p.lip = 2 * K;
		p.f = [=](double, const vec &x) { vec f(n); for (int i = 0; i < n; ++i) f(i) = K * (std::sin(x(i) - y(i) + i) + std::cos(x((i + 1) % n) - y((i + 1) % n))); return f; };
		p.J = [=](double, const vec &x) { mat J(n, n, arma::fill::zeros); for (int i = 0; i < n; ++i) { int k = (i + 1) % n; J(i, i) += K * std::cos(x(i) - y(i) + i); J(i, k) -= K * std::sin(x(k) - y(k)); } return J; };
		rep().count("far");
	}
	int maxit = r.b(0.7) ? r.i(60, 400) : r.i(1, 12);
	int refresh = r.i(0, 12);
	double xtol = r.logu(1e-12, 1e-4), Rtol = r.logu(1e-12, 1e-4);
	int variant = r.i(0, 3);
	bool damped = variant % 2 == 0;
	int fault = r.b(0.15) ? r.i(1, 4) : 0, at = r.i(0, 3 * s);
	Trace tr; tr.log = true;
	if (fault) tr.fault = [fault, at](char k, long idx) { return (k == 'f' && idx == at) || (k == 'j' && idx == 0 && at == 0) ? fault : 0; };
	Fun F(p, tr);
	std::string d = cat(pdesc(p), " | ", m.name, " t=", t, " dt=", dt, " y=", y, " maxit=", maxit, " refresh=", refresh, " xtol=", xtol, " Rtol=", Rtol, " variant=", variant, " fault=", fault, "@", at);
	rep().context = d;
	Out o;
	try { o = solve(variant, F, y, t, dt, sc, maxit, refresh, xtol, Rtol); }
	catch (const InjectedThrow &) { RTM_CHECK(fault == 3 && tr.faults_hit, "spurious-exception", d); rep().count("exceptions"); return; }
	d += cat(" -> status=", o.status, " iters=", o.st.iters, " res=", o.st.res);
	rep().count("solves");
	bool ok = o.status == newton::SUCCESS;
	RTM_CHECK(fault != 3 || !tr.faults_hit, "exception-lost", d);
	RTM_CHECK(o.status >= newton::SUCCESS && o.status <= newton::GENERIC_ERROR && o.st.conv_status == o.status, "status-range", d);
	RTM_CHECK((long)o.nf == tr.nfun, cat("fun-count"), cat(d, " counted ", o.nf, " called ", tr.nfun));
	RTM_CHECK((long)o.nj == tr.njac, cat("jac-count"), cat(d, " counted ", o.nj, " called ", tr.njac));
	RTM_CHECK(o.st.iters >= 1 && o.st.iters <= maxit, "too-many-iterations", d);
	RTM_CHECK(tr.nfun <= long(s) * (maxit + 1), "too-many-evaluations", d);
	if (!refresh) RTM_CHECK(tr.njac == 1, "jacobi-not-frozen", cat(d, " evaluated ", tr.njac, " times"));
	RTM_CHECK(tr.njac >= 1 && tr.njac <= 1 + (refresh ? maxit / refresh : 0), "jacobi-evaluations", cat(d, " evaluated ", tr.njac, " times"));
	RTM_CHECK((int)o.Y.n_elem == n * s && (int)o.J.n_rows == n && (int)o.J.n_cols == n, "sizes", d);
	for (auto &e : tr.ev) {
		bool at_c = false;
		for (double c : T.c) at_c = at_c || std::fabs(e.t - (t + c * dt)) <= 1e-12 * (std::fabs(t) + dt);
		if (e.kind == 'j') at_c = std::fabs(e.t - t) <= 1e-15 * std::fabs(t);
		RTM_CHECK(at_c, "evaluation-time", cat(d, " evaluated at ", e.t));
	}
	if ((int)o.Y.n_elem != n * s) return;
	if (!fault || !tr.faults_hit) {
		mat Jt = p.J(t, y);
		RTM_CHECK(arma::norm(o.J - Jt, "fro") <= 1e-12 * (1 + arma::norm(Jt, "fro")), "jacobi-matrix", d);
	}
	if (fault && tr.faults_hit) { RTM_CHECK(!ok, "success-on-fault", d); rep().count("faults"); }
	if (ok) {
		rep().count("converged");
		RTM_CHECK(o.Y.is_finite() && std::isfinite(o.st.res), "non-finite-success", d);
		double lip = arma::norm(p.J(t, y), "fro");
		vec R = residual(p, T, y, t, dt, o.Y, &lip);
		double rn = norm2(R), round = 1e-13 * s * (1 + dt * lip) * (norm2(o.Y) + norm2(y) + 1) + dt * lip * 1e-15 * std::fabs(t);
		for (auto &row : T.A) for (double a : row) if (std::fabs(a) > 1) round *= 1.5;
		// Either the residual was small, or the last increment was: R_new is about (J_Y frozen
		// minus J_Y now) * increment, plus what damping leaves over.
		double lim = std::max(Rtol, 12 * (1 + dt * lip) * xtol);
		RTM_CHECK(rn <= lim * 1.01 + round, "false-success", cat(d, " residual ", rn, " allowed ", lim, " + ", round));
		if (rn > 100 * round) RTM_CHECK(std::fabs(std::sqrt(o.st.res) - rn) <= 0.05 * rn || std::fabs(o.st.res - rn) <= 0.05 * rn, "residual", cat(d, " actual ", rn));
		rep().count("residuals");
	} else rep().count("failed");
	// Linear problems: undamped, one iteration solves them.
	double z = dt * p.lip * 1.0;
	bool tiny = Rtol < 1e-12 * (1 + norm2(y)) * (1 + z) * s && xtol < 1e-11 * (1 + norm2(y));
	if (!fault && !damped && p.linear && maxit >= 4 && !tiny) {
		RTM_CHECK(ok && o.st.iters <= 3, "linear-not-immediate", d);
		rep().count("linear");
	}
	// Contraction: has to converge.
	if (!fault && maxit >= 60 && z < 0.2 && (p.name == "linear" || p.name == "manufactured" || p.name == "quadrature" || p.name == "oscillator" || p.name == "prothero" || p.name == "stiff-linear") && Rtol > 1e-10 && xtol > 1e-10) {
		double f0 = norm2(p.f(t, y)) * dt * s;
		if (!damped || f0 < 5) { RTM_CHECK(ok, "did-not-converge", d); rep().count("guaranteed"); }
		// The linear algebra used does not matter.
		if (r.b(0.3)) {
			Trace t2; Fun F2(p, t2);
			Out q = solve(variant ^ 2, F2, y, t, dt, sc, maxit, refresh, xtol, Rtol);
			RTM_CHECK(q.status == o.status && std::labs(q.st.iters - o.st.iters) <= 1 && arma::norm(q.Y - o.Y, "inf") <= 20 * (xtol + Rtol) + 1e-12 * (1 + norm2(y)), "variants-differ", d);
			rep().count("variant-pairs");
		}
	}
	if (o.st.iters > 1) { rep().nontrivial(d); rep().sample(d); }
}
