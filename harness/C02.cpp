// C02: every accepted step satisfies the Runge-Kutta equations of the named
// method, with coefficients derived independently (ref_tableaux.hpp).
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 400000 : 16000; }

static void probe_lobatto3a(long id)
{
	// Known finding: these cannot take a single step.
	Method m = id == 0 ? Method{"LOBATTO_IIIA_43", irk::LOBATTO_IIIA_43, true, 4, 2, true, true}
	                   : Method{"LOBATTO_IIIA_127", irk::LOBATTO_IIIA_127, true, 12, 7, true, false};
	Rng r(5);
	Problem p = p_linear(r, 2);
	Config c; c.m = m; c.adaptive = false; c.dt = 0.1;
	Trace tr;
	try {
		Traj T = run(p, c, tr);
		const auto &tab = tableau(m);
		vec K1 = T.stages.at(1).head(2);
		RTM_CHECK(T.status == SUCCESS, cat("probe-status/", m.name), cat("status=", T.status));
		vec y = p.y0;
		double h = T.t[1] - T.t[0];
		for (std::size_t i = 0; i < tab.b.size(); ++i) y += h * tab.b[i] * T.stages[1].subvec(2 * i, 2 * i + 1);
		RTM_CHECK(arma::norm(y - T.y[1]) < 1e-9, cat("probe-step/", m.name), cat("y=", T.y[1]));
		(void)K1;
	} catch (const std::runtime_error &e) {
		rep().violation(cat("unusable/", m.name), cat("irk::odeint throws: ", e.what()));
	}
	rep().count("probes");
}

void run_case(long id, Rng &r)
{
	if (id < 2) { probe_lobatto3a(id); return; }
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	const ref::Tableau &tab = tableau(m);
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	if (c.is_adaptive() && r.b(0.3)) { c.rtol = r.logu(1e-3, 0.3); c.atol = c.rtol; }
	c.ntol = r.logu(1e-12, 1e-9); c.ndx = r.logu(1e-12, 1e-9);
	Trace tr;
	tr.budget = 400000;
	Traj T;
	// Loose tolerances can throw an explicit method into a stiff region;
	// whether it gets out cheaply is not this property's business.
	try { T = run(p, c, tr); } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	std::string d = pdesc(p) + " | " + c.desc();
	int n = p.dim, s = tab.b.size();
	rep().count("trajectories");
	if (T.status != SUCCESS) rep().count("not-successful");
	for (std::size_t k = 0; k + 1 < T.t.size(); ++k) {
		double t = T.t[k], h = T.t[k + 1] - T.t[k];
		const vec &y = T.y[k], &y1 = T.y[k + 1];
		// Local Lipschitz constant (a loose tolerance can leave the region p.lip is for).
		double lip = std::max(p.lip, 3 * std::max(arma::norm(p.J(t, y), "fro"), arma::norm(p.J(t + h, y1), "fro")));
		if (T.stages[k + 1].n_elem != (arma::uword)(n * s)) { rep().violation("stages-dimension", d); return; }
		mat K(T.stages[k + 1].memptr(), n, s);
		double Kmax = arma::abs(K).max(), ymax = arma::abs(y).max() + arma::abs(y1).max();
		double terr = 8 * 2.3e-16 * (std::fabs(t) + h); // h is only known to this
		rep().count(m.implicit ? "irk-steps" : "erk-steps");
		// The update, from the recorded stages.
		vec z = y;
		for (int i = 0; i < s; ++i) z += h * tab.b[i] * K.col(i);
		double tolu = (m.implicit ? 1e-10 : 1e-12) * (ymax + h * Kmax) + 4 * terr * Kmax + 1e-300;
		RTM_CHECK(arma::abs(z - y1).max() <= tolu, cat("update/", m.name), cat(d, " k=", k, " t=", t, " h=", h, " y1=", y1, " expected ", z, " tol ", tolu));
		if (!m.implicit) {
			mat R(n, s);
			double amp = 1;
			for (int i = 0; i < s; ++i) {
				vec Y = y;
				for (int j = 0; j < i; ++j) Y += h * tab.A[i][j] * R.col(j);
				R.col(i) = p.f(t + tab.c[i] * h, Y);
				amp += h * lip * amp;
			}
			double Rm = arma::abs(R).max();
			double tol = (1e-11 * (1 + Rm + Kmax + lip * ymax) + 50 * terr * (1 + lip) * (1 + Rm + Kmax)) * std::min(amp, 1e4);
			RTM_CHECK(arma::abs(R - K).max() <= tol, cat("stages/", m.name), cat(d, " k=", k, " t=", t, " h=", h, " diff=", arma::abs(R - K).max(), " tol ", tol));
		} else {
			mat A(s, s);
			for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) A(i, j) = tab.A[i][j];
			mat Y = h * K * A.t(), F(n, s);
			for (int i = 0; i < s; ++i) F.col(i) = p.f(t + tab.c[i] * h, y + Y.col(i));
			double Fm = arma::abs(F).max();
			double res = arma::norm(arma::vectorise(Y - h * F * A.t()));
			double hl = h * lip;
			double tol = 2 * c.ntol + 20 * (1 + hl) * c.ndx + 1e-11 * (1 + hl) * (ymax + h * Fm + 2) + 50 * terr * (1 + lip) * (1 + Fm);
			RTM_CHECK(res <= tol, cat("stage-equations/", m.name), cat(d, " k=", k, " t=", t, " h=", h, " residual=", res, " tol ", tol));
		}
	}
	if (T.t.size() > 1) { rep().nontrivial(d); rep().sample(cat(d, " -> ", T.t.size() - 1, " steps verified")); }
}
