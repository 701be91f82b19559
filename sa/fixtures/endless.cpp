/* Self-test of the termination rule: endless_* must be reported, ends_* not. */
#include "Solvers/SolversSMLS.h"
using namespace ROPTLIB;
extern realdp eval(realdp t);
void ends_for(integer n) { for (integer i = 0; i < n; i++) eval(i); }
void ends_test_inside(integer n) { integer i = n; for (;;) { if (i <= 0) break; eval(i); i -= 2; } }
void ends_two_tests(integer n) { integer k = 0; while (1) { if (eval(k) > 0) { if (k >= 30) break; } else if (k > 60) break; k++; } }
void endless_one_test(integer n) { integer k = 0; while (1) { if (eval(k) > 0) { if (k >= 30) break; } k++; } }
void endless_skip(integer n) { integer k = 0; while (k < n) { if (eval(k) > 0) continue; k++; } }
void endless_bound(integer n) { for (integer i = 0; i < n; i++) if (eval(i) > 0) n++; }
void endless_wrong_way(integer n) { for (integer i = n; i < 2 * n; i--) eval(i); }
void endless_clamped_iter(integer n) { integer k = 0; while (k < n) { if (eval(k) > 0) k++; else k--; } }
void ends_backtrack(realdp t, realdp r0) { const realdp r = 0.5; while (eval(t) > 1) { t *= r; if (t < 1e-10) break; } }
void endless_backtrack(realdp t, realdp r) { while (eval(t) > 1) { t *= r; if (t < 1e-10) break; } }
void ends_clamp(realdp t) { realdp q; while (1) { if (t <= 1e-10) return; q = eval(t); q = (q > 0.5 * t) ? 0.5 * t : q; t = (q > 0.1 * t) ? q : 0.1 * t; } }
void endless_clamp(realdp t) { realdp q; while (1) { if (t <= 1e-10) return; q = eval(t); q = (q > 0.5 * t) ? 0.5 * t : q; t = (q <= 0.1 * t) ? 0.1 * t : q; } }
void ends_grow(realdp t, realdp top) { realdp q; while (1) { q = eval(t); if (t == top) return; t = (1.1 * t < q) ? q : 1.1 * t; t = (t < top) ? t : top; } }
void endless_grow(realdp t, realdp top) { realdp q; while (1) { q = eval(t); if (t >= top) return; t = (q < 1.1 * t) ? 1.1 * t : q; } }
void ends_previous(realdp t) { realdp p = t; while (eval(t) > 1) { t = eval(p); t = (t < 0.9 * p) ? t : 0.9 * p; t = (t > 0.1 * p) ? t : 0.1 * p; if (t < 1e-10) break; p = t; } }
void endless_previous(realdp t) { realdp p = t; while (eval(t) > 1) { t = eval(p); t = (t < 0.9 * p) ? t : 0.9 * p; if (t < 1e-10) break; if (t > 2) p = 2 * t; else p = t; } }
void ends_list(const std::list<realdp> &l) { for (std::list<realdp>::const_iterator i = l.begin(); i != l.end(); ++i) eval(*i); }
void ends_range(const std::list<realdp> &l) { for (realdp x : l) eval(x); }
void ends_flag(integer n) { integer k = 0; while (true) { const bool go = k < n; if (!go) break; k++; } }
void ends_pointer(const realdp *p, const realdp *e) { for (; p != e; p++) eval(*p); }
void ends_first(realdp t) { const realdp t0 = t; realdp q; while (1) { if (t <= 1e-10) return; q = eval(t); if (t == t0) q = eval(2); else q = (q > 0.5 * t) ? 0.5 * t : q; t = (q > 0.1 * t) ? q : 0.1 * t; } }
void endless_first(realdp t, realdp t0) { realdp q; while (1) { if (t <= 1e-10) return; q = eval(t); if (t == t0) q = eval(2); else { q = (q > 0.5 * t) ? 0.5 * t : q; t0 = t; } t = (q > 0.1 * t) ? q : 0.1 * t; } }
void endless_other(realdp t) { const realdp t0 = t; realdp q; while (1) { if (t <= 1e-10) return; q = eval(t); if (t != t0) q = eval(2); else q = (q > 0.5 * t) ? 0.5 * t : q; t = (q > 0.1 * t) ? q : 0.1 * t; } }
