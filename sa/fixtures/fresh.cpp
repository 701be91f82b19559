/* Self-test of the first-use analysis: what a run keeps from the run before (RerunTest*), and attributes without a value (InitTest*). */
#include "Solvers/SolversSM.h"
using namespace ROPTLIB;

struct RerunTestBase : public SolversSM {
	integer kept;
	Vector work, spare;
	virtual void Run(void) { Solvers::Run(); Prepare(); for (iter = 0; iter < Max_Iteration; iter++) Step(); }
	virtual void Prepare(void) { kept = 0; }
	virtual void Step(void) { if (kept > 0) f1 = f1 / kept; kept++; }
};
struct RerunTestGood : public RerunTestBase { };
struct RerunTestBad : public RerunTestBase {
	virtual void Prepare(void) { if (Max_Iteration > 3) kept = 0; }
};
struct RerunTestCopy : public RerunTestBase {
	virtual void Prepare(void) { }
	virtual void Step(void) { integer old = kept; kept = iter; f1 = f1 * old; }
};
struct InitTestGood { InitTestGood(integer n) : a(n) { SetDefault(); } void SetDefault(void) { b = a; } bool Use(void) { return a + b + c > 0; } integer a, b, c = 3; };
struct InitTestBad { InitTestBad(integer n) : a(n) { if (n > 2) b = 0; } bool Use(void) { return a + b > 0; } integer a, b; };
struct InitTestOrder { InitTestOrder(integer n) { b = a + n; a = n; } bool Use(void) { return a + b > 0; } integer a, b; };

integer LocalTestGood(integer n) { integer r; if (n > 2) r = 1; else r = n; return r; }
integer LocalTestSame(integer n) { integer r; bool big = n > 2; if (big) r = 1; n++; if (big) return r; return n; }
integer LocalTestBad(integer n) { integer r; while (n > 2) { r = n; n--; } return r; }
