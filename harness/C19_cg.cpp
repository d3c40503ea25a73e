// C19: CG and preconditioned CG solve symmetric positive definite systems
// technique: property-based testing: random systems of known conditioning, guesses, tolerances, preconditioners and operator types; the true residual is recomputed in long double
#include "solve.hpp"
using pbt::S;

LAW(cg, 60000, 800000, "order at least two, data not all zero") { Spec p {false, false, s.pick({10.0, 100.0, 1e4}), 1, solve_order(s)}; solve_case(s, p); }
LAW(pcg, 60000, 800000, "order at least two, data not all zero") { Spec p {false, true, s.pick({10.0, 100.0, 1e4}), s.pick({4.0, 50.0}), solve_order(s)}; solve_case(s, p); }
LAW(large, 400, 6000, "order at least two, data not all zero") { Spec p {false, s.chance(0.5), 100.0, 10.0, s.i(20, 48)}; solve_case(s, p); }
LAW(large_sparse, 2500, 40000, "order at least two") { int n = big_order(s); big_solve_case(s, false, s.chance(0.5), n); }

PBT_MAIN
