// C20: MINRES and preconditioned MINRES solve symmetric, possibly indefinite systems
// technique: property-based testing: random systems of known conditioning, guesses, tolerances, preconditioners and operator types; the true residual is recomputed in long double
#include "solve.hpp"
using pbt::S;

LAW(minres, 60000, 800000, "order at least two, data not all zero") { Spec p {true, false, s.pick({10.0, 100.0, 1e3}), 1, solve_order(s)}; solve_case(s, p); }
LAW(pminres, 60000, 800000, "order at least two, data not all zero") { Spec p {true, true, s.pick({10.0, 100.0, 1e3}), s.pick({4.0, 50.0}), solve_order(s)}; solve_case(s, p); }
LAW(large, 400, 6000, "order at least two, data not all zero") { Spec p {true, s.chance(0.5), 100.0, 10.0, s.i(20, 48)}; solve_case(s, p); }
LAW(large_sparse, 2500, 40000, "order at least two") { int n = big_order(s); big_solve_case(s, true, s.chance(0.5), n); }

PBT_MAIN
