// C27: the stability-region program writes the method's stability function.
// --extra names the program, built from the tree with ASan and UBSan.
#include "common.hpp"
#include <complex>
#include <dirent.h>
#include <sys/wait.h>
using namespace rtm;
typedef std::complex<long double> cx;

long n_cases(bool th) { return 16 + (th ? 3000 : 200); }

// R(z) = 1 + z (g + b^T (I - z A)^-1 e), by Gaussian elimination; false at a pole.
static bool stab(cx z, const mat &A, const vec &b, long double g, cx &R)
{
	int n = b.n_elem;
	std::vector<std::vector<cx>> M(n, std::vector<cx>(n + 1));
	for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) M[i][j] = (i == j ? 1.0L : 0.0L) - z * (long double)A(i, j); M[i][n] = 1; }
	for (int k = 0; k < n; ++k) {
		int p = k;
		for (int i = k; i < n; ++i) if (std::abs(M[i][k]) > std::abs(M[p][k])) p = i;
		std::swap(M[k], M[p]);
		if (std::abs(M[k][k]) < 1e-15L) return false;
		for (int i = k + 1; i < n; ++i) { cx f = M[i][k] / M[k][k]; for (int j = k; j <= n; ++j) M[i][j] -= f * M[k][j]; }
	}
	cx s = g;
	for (int k = n - 1; k >= 0; --k) { for (int j = k + 1; j < n; ++j) M[k][n] -= M[k][j] * M[j][n]; M[k][n] /= M[k][k]; s += (long double)b(k) * M[k][n]; }
	R = 1.0L + z * s;
	return true;
}

struct Coeffs { mat A; vec b, b2; double g; };

static void check_value(const std::string &word, cx z, const Coeffs &c, bool embedded, const char *key, const std::string &d)
{
	const vec &b = embedded ? c.b2 : c.b;
	char *end;
	double v = std::strtod(word.c_str(), &end);
	RTM_CHECK(!word.empty() && !*end, key, cat(d, ": '", word, "' is not a number"));
	cx R;
	if (b.n_elem == 0) { RTM_CHECK(!std::isfinite(v), key, cat(d, ": ", word, " without embedded method")); rep().count("no-embedded"); return; }
	if (!stab(z, c.A, b, embedded ? c.g : 0, R)) { RTM_CHECK(!(std::fabs(v) < 1e8), key, cat(d, ": ", word, " at a pole")); rep().count("poles"); return; }
	double w = std::abs(R), zb = std::abs(z) * (std::fabs(embedded ? c.g : 0) + arma::norm(b, 1));
	double tol = 2e-5 * w + 1e-10 * (1 + zb);
	if (w > 1e8 && v > 1e8 && w > 1e12) return;
	RTM_CHECK(std::fabs(v - w) <= tol, key, cat(d, " z=", (double)z.real(), "+", (double)z.imag(), "i: ", word, " instead of ", w));
	rep().count(w <= 1 ? "points-inside" : "points-outside");
}

static std::vector<std::string> files(const std::string &dir)
{
	std::vector<std::string> f;
	DIR *d = ::opendir(dir.c_str());
	while (dirent *e = ::readdir(d)) if (e->d_name[0] != '.') f.push_back(e->d_name);
	::closedir(d);
	return f;
}

void run_case(long id, Rng &r)
{
	char tmpl[] = "stab-XXXXXX";
	if (!::mkdtemp(tmpl)) throw std::runtime_error("no scratch directory");
	std::string dir = tmpl, exe = opt().extra;
	struct Clean { std::string d; ~Clean() { for (auto &f : files(d)) ::unlink((d + "/" + f).c_str()); ::rmdir(d.c_str()); } } clean{dir};
	bool known = id < (long)all_methods().size();
	std::string name;
	if (known) name = all_methods()[id].name;
	else {
		name = r.pick(all_methods()).name;
		switch (r.i(0, 6)) {
		case 0: name += r.b() ? "X" : "1"; break;
		case 1: name.resize(r.i(0, name.size() - 1)); break;
		case 2: for (auto &ch : name) ch = std::tolower(ch); break;
		case 3: name[r.i(0, name.size() - 1)] = 'Q'; break;
		case 4: name = "x" + name; break;
		case 5: name = r.pick(std::vector<std::string>{"EULER", "RK4", "RADAU", "0", "-1", "221", "EXPLICIT EULER", "--help", "RADAU_IIA"}); break;
		default: name = ""; for (int k = r.i(1, 30); k > 0; --k) name += char(r.i('A', 'Z')); break;
		}
		if (erk::name_to_method(name) || irk::name_to_method(name)) return;
	}
	rep().context = name;
	std::string cmd = "cd " + dir + " && '" + exe + "' '" + name + "' > out 2> err";
	if (!known && r.b(0.05)) cmd = "cd " + dir + " && '" + exe + "' > out 2> err"; // no method at all
	int rc = std::system(cmd.c_str());
	std::string err((std::istreambuf_iterator<char>(*std::unique_ptr<std::ifstream>(new std::ifstream(dir + "/err")))), std::istreambuf_iterator<char>());
	rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : 128;
	RTM_CHECK(rc != 99 && rc < 128 + 0 * known || rc == 255, "program/crash", cat("'", name, "' status ", rc, ": ", err.substr(0, 1500)));
	{ std::ifstream o(dir + "/out"); std::string w; RTM_CHECK(!(o >> w), "program/stdout", cat("'", name, "' wrote ", w)); }
	if (!known) {
		RTM_CHECK(rc != 0, "program/unknown-accepted", cat("'", name, "'"));
		RTM_CHECK(!err.empty(), "program/no-message", cat("'", name, "'"));
		rep().count("unknown-methods"); rep().nontrivial(cat("unknown ", name));
		return;
	}
	RTM_CHECK(rc == 0, "program/failed", cat(name, " status ", rc, ": ", err.substr(0, 1500)));
	const Method &m = all_methods()[id];
	Coeffs c;
	if (m.implicit) { auto s = irk::get_coefficients(m.id); c = Coeffs{s.A, s.b, s.b2, s.gamma}; }
	else { auto s = erk::get_coefficients(m.id); c = Coeffs{s.A, s.b, s.b2, s.gamma}; }
	{ // the formula itself, as published
		const ref::Tableau &t = tableau(m);
		int n = t.b.size();
		c.b = vec(t.b);
		c.A.set_size(n, n);
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.A(i, j) = t.A[i][j];
		if (c.b2.n_elem && (int)c.b2.n_elem != n) { rep().violation("coefficients", name); return; }
	}
	for (int emb = 0; emb < 2; ++emb) {
		std::string fn = dir + "/stability_" + name + (emb ? "_embedded" : "") + "_region.dat", line, d = cat(name, emb ? " embedded region" : " region");
		std::ifstream in(fn);
		RTM_CHECK((bool)in, "region/missing", d);
		std::vector<double> xs, ys; long rows = 0;
		std::map<std::pair<double, double>, int> seen;
		while (std::getline(in, line)) {
			std::istringstream ls(line);
			std::string sx, sy, sv, extra;
			if (!(ls >> sx)) continue;
			RTM_CHECK((ls >> sy >> sv) && !(ls >> extra), "region/format", cat(d, ": '", line, "'"));
			// 400 x 80 points, X fastest
			long i = rows % 400, j = rows / 400;
			double x = -190 + 200.0 * i / 399, y = -20 + 40.0 * j / 79;
			RTM_CHECK(std::fabs(std::strtod(sx.c_str(), 0) - x) <= 6e-6 * std::fabs(x) + 1e-9 && std::fabs(std::strtod(sy.c_str(), 0) - y) <= 6e-6 * std::fabs(y) + 1e-9, "region/grid", cat(d, ": '", line, "' in row ", rows, " instead of ", x, " ", y));
			check_value(sv, cx(x, y), c, emb, emb ? "region/embedded" : "region/value", d);
			++rows;
		}
		RTM_CHECK(rows == 400 * 80, "region/rows", cat(d, ": ", rows));
	}
	std::ifstream in(dir + "/stability_" + name + "_limit.dat");
	RTM_CHECK((bool)in, "limit/missing", name);
	std::string line; long rows = 0; double last = -HUGE_VAL, first = 0;
	while (std::getline(in, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream ls(line);
		std::string sx, a, b, extra;
		RTM_CHECK((ls >> sx >> a >> b) && !(ls >> extra), "limit/format", cat(name, ": '", line, "'"));
		double x = std::strtod(sx.c_str(), 0);
		RTM_CHECK(x >= last, "limit/order", cat(name, ": '", line, "'"));
		if (!rows) first = x;
		last = x;
		check_value(a, cx(x, 0), c, false, "limit/value", name + " limit");
		check_value(b, cx(x, 0), c, true, "limit/embedded", name + " limit");
		++rows;
	}
	RTM_CHECK(rows >= 30 && first <= -1e8 && last >= 1, "limit/rows", cat(name, ": ", rows, " rows"));
	RTM_CHECK(files(dir).size() == 5, "extra-files", cat(name, ": ", files(dir).size()));
	rep().count("programs"); rep().nontrivial(name); rep().sample(name);
}
