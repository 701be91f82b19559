/* Self-test of the line search rules: SearchGood* must not be reported, SearchBad* by the rule named in the check. */
#include "Solvers/SolversSMLS.h"
using namespace ROPTLIB;

struct SearchBase : public SolversSMLS {
	virtual realdp Value(void) { Mani->ScalarTimesVector(x1, stepsize, eta1, &eta2); Mani->Retraction(x1, eta2, &x2); return Prob->f(x2); }
	virtual realdp Slope(void) { Prob->Grad(x2, &gf2); return Mani->Metric(x2, gf2, eta2) / stepsize; }
	bool Enough(void) const { return f2 <= f1 + LS_alpha * stepsize * initialslope; }
	bool Halve(void) { stepsize /= 2; if (stepsize < Minstepsize) { LSstatus = LSSM_MINSTEPSIZE; return false; } return true; }
};
/* backtracking */
struct SearchGoodArmijo : public SearchBase {
	void Search(void) { LSstatus = LSSM_SUCCESS; f2 = Value(); while (f2 > f1 + LS_alpha * stepsize * initialslope) { stepsize *= LS_ratio1; if (stepsize < Minstepsize) { LSstatus = LSSM_MINSTEPSIZE; break; } f2 = Value(); } newslope = Slope(); }
};
struct SearchGoodShape : public SearchBase {
	void Search(void) {
		LSstatus = LSSM_SUCCESS;
		for (;;) {
			const realdp t = Value();
			f2 = t;
			const realdp drop = f1 - f2, want = -LS_alpha * (initialslope * stepsize);
			if (!(drop < want)) break;
			if (!Halve()) break;
		}
		Prob->Grad(x2, &gf2);
	}
};
struct SearchGoodHelper : public SearchBase {
	void Search(void) { LSstatus = LSSM_SUCCESS; do { f2 = Value(); if (Enough()) { Prob->Grad(x2, &gf2); return; } } while (Halve()); Prob->Grad(x2, &gf2); }
};
struct SearchGoodLoopless : public SearchBase {
	void Search(void) { LSstatus = LSSM_LSERROR; f2 = Value(); Prob->Grad(x2, &gf2); if (Enough()) LSstatus = LSSM_SUCCESS; }
};
/* both conditions */
struct SearchGoodWolfe : public SearchBase {
	void Search(void) {
		LSstatus = LSSM_SUCCESS;
		realdp lo = 0, hi = -1;
		for (integer k = 0; k < 50; k++) {
			f2 = Value(); newslope = Slope();
			if (!Enough()) hi = stepsize;
			else if (newslope < LS_beta * initialslope) lo = stepsize;
			else return;
			stepsize = hi < 0 ? 2 * lo : (lo + hi) / 2;
		}
		LSstatus = LSSM_NOCURVATURE;
	}
};
/* the condition is that of another step size */
struct SearchBadDecreaseStep : public SearchBase {
	void Search(void) { LSstatus = LSSM_SUCCESS; f2 = Value(); while (f2 > f1 + LS_alpha * initiallength * initialslope) { stepsize *= LS_ratio1; if (stepsize < Minstepsize) { LSstatus = LSSM_MINSTEPSIZE; break; } f2 = Value(); } newslope = Slope(); }
};
/* a search that gives up reports success */
struct SearchBadDecreaseLimit : public SearchBase {
	void Search(void) { LSstatus = LSSM_SUCCESS; f2 = Value(); integer k = 0; while (f2 > f1 + LS_alpha * stepsize * initialslope) { stepsize *= LS_ratio1; f2 = Value(); if (++k > 20) break; } newslope = Slope(); }
};
/* wrong sign of the slope term */
struct SearchBadDecreaseSign : public SearchBase {
	void Search(void) { LSstatus = LSSM_SUCCESS; f2 = Value(); while (f2 > f1 - LS_alpha * stepsize * initialslope) { stepsize *= LS_ratio1; if (stepsize < Minstepsize) { LSstatus = LSSM_MINSTEPSIZE; break; } f2 = Value(); } newslope = Slope(); }
};
/* the slope is of an earlier trial point */
struct SearchBadCurvatureStale : public SearchBase {
	void Search(void) {
		LSstatus = LSSM_SUCCESS;
		realdp lo = 0, hi = -1;
		newslope = initialslope;
		for (integer k = 0; k < 50; k++) {
			f2 = Value();
			if (k % 2 == 0) newslope = Slope();
			if (!Enough()) hi = stepsize;
			else if (newslope < LS_beta * initialslope) lo = stepsize;
			else { Prob->Grad(x2, &gf2); return; }
			stepsize = hi < 0 ? 2 * lo : (lo + hi) / 2;
		}
		LSstatus = LSSM_NOCURVATURE;
		newslope = Slope();
	}
};
struct SearchBadCurvatureLimit : public SearchBase {
	void Search(void) {
		LSstatus = LSSM_SUCCESS;
		f2 = Value(); newslope = Slope();
		integer k = 0;
		while (Enough() && newslope < LS_beta * initialslope && k++ < 10) { stepsize *= 2; f2 = Value(); newslope = Slope(); }
		if (!Enough()) LSstatus = LSSM_LSERROR;
	}
};
/* the step is changed after the last evaluation */
struct SearchBadData : public SearchBase {
	void Search(void) { LSstatus = LSSM_SUCCESS; f2 = Value(); while (!Enough()) { if (!Halve()) break; f2 = Value(); } newslope = Slope(); if (stepsize > Maxstepsize) stepsize = Maxstepsize; }
};
struct SearchBadStatus : public SearchBase {
	void Search(void) { f2 = Value(); Prob->Grad(x2, &gf2); if (Enough()) LSstatus = LSSM_SUCCESS; }
};
struct SearchBadGradient : public SearchBase {
	void Search(void) { LSstatus = LSSM_SUCCESS; f2 = Value(); if (Enough()) { newslope = Slope(); return; } while (!Enough()) { if (!Halve()) return; f2 = Value(); } newslope = Slope(); }
};
