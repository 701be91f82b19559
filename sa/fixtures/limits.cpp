/* Self-test of the limit rules: LimitGood* must not be reported, LimitBad* by the rule named in the check. */
#include "Solvers/SolversSM.h"
using namespace ROPTLIB;

struct LimitBase : public SolversSM {
	virtual void Run(void) { SolversSM::Run(); iter = 0; bool stop = IsStopped(); while (((!stop) && iter < Max_Iteration) || iter < Min_Iteration) { Step(); Take(); iter++; stop = IsStopped(); } }
	void Step(void) { f2 = Prob->f(x2); nf++; }
	void Take(void) { Variable t(x1); x1 = x2; x2 = t; f1 = f2; }
	bool More(bool stop) { return ((!stop) && iter < Max_Iteration) || iter < Min_Iteration; }
	bool Full(void) const { return iter >= Max_Iteration && iter >= Min_Iteration; }
};
struct LimitGood : public LimitBase {
	virtual void Run(void) { SolversSM::Run(); iter = 0; bool stop = IsStopped(); while (((!stop) && iter < Max_Iteration) || iter < Min_Iteration) { Step(); if (std::isnan(f2)) break; iter++; Take(); stop = IsStopped(); } }
};
struct LimitGoodShape : public LimitBase {
	void Count(void) { iter += 1; }
	virtual void Run(void) {
		SolversSM::Run(); iter = 0;
		bool stop = IsStopped();
		for (;;) {
			const bool early = iter + 1 <= Min_Iteration;
			if (Full()) break;
			if (!early) { if (stop) break; }
			Step();
			if (f2 > f1) { Count(); stop = static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound; continue; }
			Count();
			stop = IsStopped();
			std::swap(x1, x2);
		}
	}
};
struct LimitBadMax : public LimitBase {
	virtual void Run(void) { SolversSM::Run(); iter = 0; bool stop = IsStopped(); while (((!stop) && iter <= Max_Iteration) || iter < Min_Iteration) { Step(); Take(); iter++; stop = IsStopped(); } }
};
struct LimitBadMin : public LimitBase {
	virtual void Run(void) { SolversSM::Run(); iter = 0; bool stop = IsStopped(); while (((!stop) && iter < Max_Iteration) || iter < Min_Iteration) { Step(); Take(); iter++; stop = IsStopped(); if (stop) break; } }
};
struct LimitBadStop : public LimitBase {
	virtual void Run(void) { SolversSM::Run(); iter = 0; bool stop = IsStopped(); while (((!stop) && iter < Max_Iteration) || iter < Min_Iteration || (iter < Max_Iteration && f1 > f2)) { Step(); Take(); iter++; stop = IsStopped(); } }
};
struct LimitBadTime : public LimitBase {
	virtual bool IsStopped(void) {
		if (StopPtr != nullptr) return StopPtr(x2, funSeries, lengthSeries, ngf2, ngf0, Prob, this);
		if (static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound) return true;
		if (Stop_Criterion == SM_FUN_REL) return ((fabs((f1 - f2) / (fabs(f1) + 1)) < Tolerance) && iter > 0);
		if (Stop_Criterion == SM_GRAD_F) return ngf2 < Tolerance;
		if (Stop_Criterion == SM_GRAD_F_0) return (ngf2 / ngf0) < Tolerance;
		return true;
	}
};
struct LimitBadRejected : public LimitBase {
	virtual void Run(void) { SolversSM::Run(); iter = 0; bool stop = IsStopped(); while (((!stop) && iter < Max_Iteration) || iter < Min_Iteration) { Step(); if (f2 < f1) { stop = IsStopped(); Take(); } iter++; } }
};
struct LimitBadTwice : public LimitBase {
	virtual void Run(void) { SolversSM::Run(); iter = 0; bool stop = IsStopped(); while (((!stop) && iter < Max_Iteration) || iter < Min_Iteration) { Step(); Take(); if (f2 > f1) iter++; iter++; stop = IsStopped(); } }
};
struct LimitBadZero : public LimitBase {
	virtual void Run(void) { SolversSM::Run(); bool stop = IsStopped(); if (!stop) iter = 0; while (((!stop) && iter < Max_Iteration) || iter < Min_Iteration) { Step(); Take(); iter++; stop = IsStopped(); } }
};
struct LimitBadCriterion : public LimitBase {
	virtual bool IsStopped(void) {
		const realdp elapsed = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
		if (TimeBound < elapsed) return true;
		if (StopPtr) return StopPtr(x2, funSeries, lengthSeries, ngf2, ngf0, Prob, this);
		switch (0) { default: break; }
		if (Stop_Criterion == SM_FUN_REL) return (fabs(f2 - f1) < Tolerance * (fabs(f1) + 1)) && !(iter <= 0);
		if (Stop_Criterion == SM_GRAD_F) return !(ngf2 >= Tolerance);
		if (Stop_Criterion == SM_GRAD_F_0) return ngf2 / (ngf0 + 1) < Tolerance;
		return true;
	}
};
