// C05: error estimation, acceptance and step size control.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 12000; }

// Error estimate of an explicit method over one step, from the reference pair.
static vec erk_estimate(const Problem &p, const ref::Tableau &T, double t, const vec &y, double h, vec &y1, bool &ok)
{
	int s = T.b.size();
	mat K(y.n_elem, s);
	for (int i = 0; i < s; ++i) {
		vec Y = y;
		for (int j = 0; j < i; ++j) Y += h * T.A[i][j] * K.col(j);
		K.col(i) = p.f(t + T.c[i] * h, Y);
	}
	y1 = y; vec e(y.n_elem, arma::fill::zeros);
	for (int i = 0; i < s; ++i) { y1 += h * T.b[i] * K.col(i); e += h * (T.b2[i] - T.b[i]) * K.col(i); }
	ok = K.is_finite() && y1.is_finite();
	return e;
}

// The same for an implicit method, with a Newton iteration of our own.
// est[0] is formula (8.19), est[1] formula (8.20) of Hairer & Wanner.
static bool irk_estimate(const Problem &p, const irk::solver_coeffs &sc, const ref::Tableau &T, double t, const vec &y, double h, vec &y1, vec est[2])
{
	int s = T.b.size(), N = y.n_elem;
	mat A(s, s), K(N, s, arma::fill::zeros);
	for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) A(i, j) = T.A[i][j];
	mat J = p.J(t, y), M = arma::eye(N * s, N * s) - h * arma::kron(A, J);
	bool ok = false;
	for (int it = 0; it < 60 && !ok; ++it) {
		mat Y = h * K * A.t(), F(N, s);
		for (int i = 0; i < s; ++i) F.col(i) = p.f(t + T.c[i] * h, y + Y.col(i));
		vec r = arma::vectorise(F - K), d;
		if (!r.is_finite() || !arma::solve(d, M, r)) return false;
		K += arma::reshape(d, N, s);
		ok = arma::norm(d) <= 1e-11 * (1 + arma::norm(arma::vectorise(K)));
	}
	if (!ok) return false;
	y1 = y;
	vec q(N, arma::fill::zeros);
	for (int i = 0; i < s; ++i) { y1 += h * T.b[i] * K.col(i); q += h * (sc.b2(i) - sc.b(i)) * K.col(i); }
	mat E = arma::eye(N, N) - h * sc.gamma * J;
	if (!arma::solve(est[0], E, vec(h * sc.gamma * p.f(t, y) + q))) return false;
	if (!arma::solve(est[1], E, vec(h * sc.gamma * p.f(t, y + est[0]) + q))) return false;
	return y1.is_finite() && est[0].is_finite() && est[1].is_finite();
}

static double clip(double x, double lo, double hi) { return std::max(lo, std::min(hi, x)); }

void run_case(long id, Rng &r)
{
	std::vector<Method> ms;
	for (auto &m : all_methods()) if (m.adaptive) ms.push_back(m);
	const Method &m = ms[id % ms.size()];
	const ref::Tableau &T = tableau(m);
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	c.adaptive = true;
	c.dt = (p.t1 - p.t0) * r.logu(1e-5, 3);
	if (m.implicit) { c.ntol = 1e-12; c.ndx = 1e-12; c.nrefresh = r.i(0, 1) * 10; }
	// Vector-valued problems with very different component sizes exercise the norm.
	Trace tr;
	tr.log = true;
	Traj X = run(p, c, tr);
	std::string d = pdesc(p) + " | " + c.desc();
	std::size_t n = X.t.size(), N = p.dim, s = T.b.size();
	irk::solver_coeffs isc;
	if (m.implicit) isc = irk::get_coefficients(m.id);
	double expt = 1.0 / (1 + std::min(m.order, m.order2));
	rep().count("trajectories");

	for (std::size_t k = 1; k < n; ++k) {
		double t = X.t[k - 1], h = X.t[k] - t;
		const vec &y = X.y[k - 1], &y1 = X.y[k];
		double terr = 8 * 2.3e-16 * (std::fabs(t) + h);
		rep().count("accepted");
		if (X.err_est[k].n_elem != N || X.stages[k].n_elem != N * s) { rep().violation("dimensions", d); return; }
		// Acceptance, and the reported norm.
		RTM_CHECK(X.err[k] <= 1.0, cat("accepted-too-large-error/", m.name), cat(d, " k=", k, " err=", X.err[k]));
		double w = wrms(X.err_est[k], y, y1, c.atol, c.rtol);
		RTM_CHECK(std::fabs(X.err[k] - std::max(w, 1e-17)) <= 1e-9 * w + 1e-16, cat("error-norm/", m.name), cat(d, " k=", k, " err=", X.err[k], " norm of err_est=", w));
		// The estimate itself.
		mat K(X.stages[k].memptr(), N, s);
		double lip = std::max(p.lip, 3 * std::max(arma::norm(p.J(t, y), "fro"), arma::norm(p.J(t + h, y1), "fro")));
		double Km = arma::abs(K).max(), ym = arma::abs(y).max();
		vec e1(N, arma::fill::zeros);
		if (!m.implicit) {
			for (std::size_t i = 0; i < s; ++i) e1 += h * (T.b2[i] - T.b[i]) * K.col(i);
			double tol = 1e-12 * h * Km + 4 * terr * Km + 1e-300;
			double df = std::min(arma::abs(e1 - X.err_est[k]).max(), arma::abs(e1 + X.err_est[k]).max());
			RTM_CHECK(df <= tol, cat("estimate/", m.name), cat(d, " k=", k, " est=", X.err_est[k], " expected +-", e1, " tol ", tol));
		} else {
			mat J = p.J(t, y), M = arma::eye(N, N) - h * isc.gamma * J;
			vec q(N, arma::fill::zeros);
			for (std::size_t i = 0; i < s; ++i) q += h * (isc.b2(i) - isc.b(i)) * K.col(i);
			vec f0 = p.f(t, y);
			vec a = arma::solve(M, h * isc.gamma * f0 + q);           // (8.19)
			vec fa = p.f(t, y + a);
			vec b = arma::solve(M, h * isc.gamma * fa + q);           // (8.20)
			double sz = 1 + arma::norm(arma::inv(M), 2);
			double tol = (2e-11 * (h * Km + h * arma::abs(f0).max() + h * arma::abs(fa).max() + ym + 1) + 20 * terr * (1 + lip) * (1 + Km)) * sz + 1e-9 * arma::abs(a).max() * (1 + h * lip);
			double df = std::min(arma::abs(a - X.err_est[k]).max(), arma::abs(b - X.err_est[k]).max());
			RTM_CHECK(df <= tol, cat("estimate/", m.name), cat(d, " k=", k, " est=", X.err_est[k], " expected ", a, " or ", b, " tol ", tol));
		}
	}

	// Attempts, reconstructed from the log of right-hand side evaluations.
	if (!m.implicit) {
		std::size_t per = m.fsal ? s - 1 : s, skip = m.fsal ? 1 : 0;
		// Evaluations per attempt are all alike; if not, a different evaluation
		// scheme is in use and only the rows can be judged.
		if (X.attempt <= 0 || tr.ev.size() != skip + per * X.attempt) { rep().count("log-not-grouped"); return; }
		std::size_t row = 1;
		double pdt = -1, perr = 0; bool pacc = true;
		for (long a = 0; a < X.attempt; ++a) {
			if (row >= n) { rep().count("tail-attempts"); break; }
			double t = X.t[row - 1], tmax = t;
			for (std::size_t k = 0; k < per; ++k) tmax = std::max(tmax, tr.ev[skip + a * per + k].t);
			double dt = tmax - t, terr = 8 * 2.3e-16 * (std::fabs(t) + dt);
			bool acc = std::fabs(tmax - X.t[row]) <= 2 * terr;
			bool ok; vec y1;
			vec e = erk_estimate(p, T, t, X.y[row - 1], dt, y1, ok);
			double err = ok ? wrms(e, X.y[row - 1], y1, c.atol, c.rtol) : HUGE_VAL;
			if (!std::isfinite(err)) { ok = false; err = HUGE_VAL; }
			rep().count("attempts");
			// dt is only known to rounding, so decisions near 1 are not judged.
			double slack = 1e-6 + 1e4 * terr / dt;
			bool clear = ok && slack < 0.1;
			if (acc) {
				if (clear) RTM_CHECK(err <= 1 + slack, cat("accepted-too-large-error/", m.name), cat(d, " row=", row, " err=", err));
			} else {
				rep().count("rejected");
				if (clear) RTM_CHECK(err >= 1 - slack, cat("needless-rejection/", m.name), cat(d, " t=", t, " dt=", dt, " err=", err));
			}
			bool last = tmax >= p.t1 - ulp_tol(p.t0, p.t1);
			if (pdt > 0) {
				if (!pacc) RTM_CHECK(dt < pdt, cat("no-shrink-after-rejection/", m.name), cat(d, " t=", t, " dt ", pdt, " -> ", dt));
				RTM_CHECK(dt <= 8 * pdt * (1 + slack), cat("grows-too-fast/", m.name), cat(d, " t=", t, " dt ", pdt, " -> ", dt));
				if (!last) RTM_CHECK(dt >= 0.01 * pdt * (1 - slack), cat("shrinks-too-fast/", m.name), cat(d, " t=", t, " dt ", pdt, " -> ", dt));
				if (perr < HUGE_VAL && perr > 1e-9 && slack < 1e-3) {
					// Standard controller: 0.9 h err^(-1/(q+1)), limited.
					double want = 0.9 * pdt * clip(std::pow(1 / perr, expt), 0.1, 4.0);
					if (c.max_dt > 0) want = std::min(want, c.max_dt);
					if (last) RTM_CHECK(dt <= want * (1 + 1e-4 + slack), cat("step-size/", m.name), cat(d, " t=", t, " err=", perr, " dt ", pdt, " -> ", dt, " expected at most ", want));
					else RTM_CHECK(std::fabs(dt - want) <= (1e-4 + slack) * want, cat("step-size/", m.name), cat(d, " t=", t, " err=", perr, " dt ", pdt, " -> ", dt, " expected ", want));
					rep().count("controller-decisions");
				}
			}
			pdt = dt; perr = err; pacc = acc;
			if (acc) ++row;
		}
	} else {
		for (std::size_t k = 1; k < n; ++k) {
			double h = X.t[k] - X.t[k - 1];
			double slack = 1e-6 + 64 * 2.3e-16 * (std::fabs(X.t[k]) + h) / h;
			bool last = X.t[k] >= p.t1 - ulp_tol(p.t0, p.t1);
			if (k < 2 || slack > 1e-2) continue;
			double hp = X.t[k - 1] - X.t[k - 2], e = X.err[k - 1];
			if (hp < h * 1e-3 && 64 * 2.3e-16 * std::fabs(X.t[k]) / hp > 1e-2) continue;
			slack += 64 * 2.3e-16 * (std::fabs(X.t[k]) + h) / hp;
			// Rejections only ever shrink the step, so the bound holds regardless.
			double want = 0.9 * hp * clip(std::pow(1 / e, expt), 0.1, 8.0);
			if (e > 1e-9) RTM_CHECK(h <= want * (1 + 1e-4 + slack), cat("step-size/", m.name), cat(d, " k=", k, " err=", e, " h ", hp, " -> ", h, " allowed ", want));
			RTM_CHECK(h <= 8 * hp * (1 + slack), cat("grows-too-fast/", m.name), cat(d, " k=", k, " h ", hp, " -> ", h));
			rep().count("controller-decisions");
			// Without any rejection the predictive controller fixes the step from below.
			if (k >= 3 && !last && X.attempt == long(n) - 1 && e > 1e-9 && X.err[k - 2] > 1e-9) {
				double hpp = X.t[k - 2] - X.t[k - 3];
				if (64 * 2.3e-16 * std::fabs(X.t[k]) / hpp > 1e-2) continue;
				double s27 = std::pow(1 / e, expt), s28 = s27 * hp / hpp * std::pow(X.err[k - 2] / e, expt);
				double lo = 0.45 * hp * clip(std::min(s27, s28), 0.1, 8.0);
				if (c.max_dt > 0) lo = std::min(lo, c.max_dt);
				RTM_CHECK(h >= lo * (1 - 1e-3 - slack - 64 * 2.3e-16 * std::fabs(X.t[k]) / hpp), cat("step-too-small/", m.name), cat(d, " k=", k, " err=", e, " h ", hp, " -> ", h, " expected at least ", lo));
				rep().count("controller-lower-bounds");
			}
		}
		rep().count("rejected", X.reject_err);
		rep().count("attempts", X.attempt);
		// With one linearisation per attempt the log separates the attempts.
		if (c.nrefresh == 0 && X.reject_newton == 0 && tr.njac == X.attempt) {
			std::vector<std::size_t> at;
			for (std::size_t e = 0; e < tr.ev.size(); ++e) if (tr.ev[e].kind == 'j') at.push_back(e);
			at.push_back(tr.ev.size());
			double cmax = *std::max_element(T.c.begin(), T.c.end());
			for (std::size_t a = 0; a + 2 < at.size(); ++a) {
				double t = tr.ev[at[a]].t, tmax = t;
				if (tr.ev[at[a + 1]].t != t) continue; // accepted
				for (std::size_t e = at[a]; e < at[a + 1]; ++e) tmax = std::max(tmax, tr.ev[e].t);
				double h = (tmax - t) / cmax, tmax2 = t;
				for (std::size_t e = at[a + 1]; e < at[a + 2]; ++e) tmax2 = std::max(tmax2, tr.ev[e].t);
				RTM_CHECK(tmax2 < tmax, cat("no-shrink-after-rejection/", m.name), cat(d, " t=", t, " h=", h));
				if (!(h > 1e-9 * (1 + std::fabs(t)))) continue;
				vec y1, est[2];
				if (!irk_estimate(p, isc, T, t, tr.ev[at[a]].y, h, y1, est)) continue;
				double e1 = wrms(est[0], tr.ev[at[a]].y, y1, c.atol, c.rtol), e2 = wrms(est[1], tr.ev[at[a]].y, y1, c.atol, c.rtol);
				RTM_CHECK(std::max(e1, e2) >= 0.98, cat("needless-rejection/", m.name), cat(d, " t=", t, " h=", h, " err=", e1, " or ", e2));
				rep().count("irk-rejections-judged");
			}
		}
	}
	if (n > 2) { rep().nontrivial(d); rep().sample(cat(d, " -> accepted=", n - 1, " attempts=", X.attempt, " rejected=", X.reject_err)); }
}
