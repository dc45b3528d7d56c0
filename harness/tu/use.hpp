#include <cmath>
#include <cstdio>
namespace {
struct Ode {
	typedef arma::mat jac_type;
	double l;
	arma::vec fun(double, const arma::vec &y) { return arma::vec(-l * y); }
	arma::mat jac(double, const arma::vec &y) { return arma::mat(-l * arma::eye(y.size(), y.size())); }
};
struct Root {
	typedef arma::mat jac_type;
	arma::vec fun(const arma::vec &x) { return arma::vec(x - 0.5 * arma::sin(x) - 1.0); }
	arma::mat jac(const arma::vec &x) { return arma::mat(arma::diagmat(1.0 - 0.5 * arma::cos(x))); }
};
}
double WHO(double l)
{
	Ode F{l};
	arma::vec y0 = {1.0, 2.0};
	double s = 0;
	auto e = erk::odeint(F, 0, 1, y0);
	auto i = irk::odeint(F, 0, 1, y0);
	auto m = irk::merge_rk_output(i, i);
	s += arma::accu(e.y_vals.back()) + arma::accu(i.y_vals.back()) + m.t_vals.size();
	for (auto &n : erk::all_method_names()) s += erk::get_coefficients(erk::name_to_method(n)).b.size();
	for (auto &n : irk::all_method_names()) s += irk::get_coefficients(irk::name_to_method(n)).b.size();
	multistep::solver_options so; so.order = 3;
	s += arma::accu(multistep::adams_bashforth(F, 0, 1, y0, so, 0.1).y_vals.back());
	s += arma::accu(multistep::bdf(F, 0, 1, y0, so, 0.1).y_vals.back());
	Root R;
	newton::options no;
	newton::status st;
	s += arma::accu(newton::newton_iterate(R, y0, no, st)) + arma::accu(newton::broyden_iterate(R, y0, no, st));
	cyclic_buffer<double> b(3);
	for (int k = 0; k < 7; ++k) b.push_back(k);
	s += b[0] + 10 * b[2];
	std::ostringstream o;
	o << irk::get_coefficients(irk::RADAU_IIA_53);
	my_timer t;
	t.tic();
	s += t.toc() >= 0;
	return s + irk::verify_solver_options(irk::default_solver_options()) + erk::verify_solver_options(erk::default_solver_options());
}
