// One of two translation units that use the whole library (C15).
#include "rehuel.hpp"
#include "multistep.hpp"
#include "newton.hpp"
#include "cyclic_buffer.hpp"
#include "my_timer.hpp"
#include "test_equations.hpp"
#define WHO use_a
#include "use.hpp"
double use_b(double);
int main(int, char **)
{
	std::cout.setstate(std::ios::failbit);
	std::cerr.setstate(std::ios::failbit);
	double a = use_a(0.7), b = use_b(0.7);
	std::printf("%.17g %.17g\n", a, b);
	return std::isfinite(a) && a == b ? 0 : 1;
}
