// The other one, with the headers in another order.
#include "multistep.hpp"
#include "my_timer.hpp"
#include "cyclic_buffer.hpp"
#include "newton.hpp"
#include "erk.hpp"
#include "irk.hpp"
#include "rehuel.hpp"
#include "rehuel.hpp"
#include "test_equations.hpp"
#define WHO use_b
#include "use.hpp"
