/* Self-test of the trust-region rules: TrustGood* / InnerGood* must not be reported, TrustBad* / InnerBad* by the rule named in the check. */
#include "Solvers/SolversSMTR.h"
using namespace ROPTLIB;

struct TrustBase : public SolversSMTR {
	virtual Vector &HessianEta(const Vector &Eta, Vector *result) { return Prob->HessianEta(x1, Eta, result); }
	void Try(void)
	{
		tCG_TR();
		Mani->Retraction(x1, eta2, &x2);
		f2 = Prob->f(x2);
		HessianEta(eta2, &Heta2);
	}
	/* actual over predicted decrease */
	realdp Ratio(void) const { return (f1 - f2) / (-(Mani->Metric(x1, gf1, eta2) + Mani->Metric(x1, eta2, Heta2) / 2)); }
	bool Accurate(void) const { return ngf1 < Accuracy * (ngf0 + Tolerance); }
	bool Interior(void) const { return tCGstatusSM == TRSM_MIN || tCGstatusSM == TRSM_LCON || tCGstatusSM == TRSM_SCON; }
	bool Good(void) const
	{
		if (rho > Acceptence_Rho) return true;
		const bool less = f2 < f1;
		const realdp sq = sqrt(std::numeric_limits<realdp>::epsilon());
		if (less && fabs(f1 - f2) / (fabs(f1) + 1) < sq) return true;
		return Accurate() && (less || Interior());
	}
	void Move(void) { Prob->Grad(x2, &gf2); ngf2 = sqrt(Mani->Metric(x2, gf2, gf2)); x1 = x2; f1 = f2; gf1 = gf2; ngf1 = ngf2; }
	/* false: the radius became too small */
	bool Radius(void)
	{
		if (rho > 0.75)
		{
			if (!Interior() && tCGstatusSM != TRSM_ERROR)
				Delta = std::min(Delta * Magnified_tau, maximum_Delta);
			return true;
		}
		if (rho >= 0.25 || Accurate()) return true;
		Delta *= Shrinked_tau;
		return Delta >= minimum_Delta;
	}
};
struct TrustGood : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (!Radius()) break; if (Good()) Move(); } }
};
/* the ratio leaves out the curvature of the model */
struct TrustBadAcceptRatio : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = (f1 - f2) / -Mani->Metric(x1, gf1, eta2); if (!Radius()) break; if (Good()) Move(); } }
};
struct TrustBadAcceptAlways : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (!Radius()) break; if (Good() || iter == 0) Move(); } }
};
struct TrustBadAcceptNever : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (!Radius()) break; if (Good() && f2 < f1) Move(); } }
};
/* the radius is enlarged after interior steps as well */
struct TrustBadRadiusGrow : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (rho > 0.75) Delta = std::min(Delta * Magnified_tau, maximum_Delta); else if (!Radius()) break; if (Good()) Move(); } }
};
/* no upper bound */
struct TrustBadRadiusBound : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (rho > 0.75) { if (!Interior() && tCGstatusSM != TRSM_ERROR) Delta *= Magnified_tau; } else if (!Radius()) break; if (Good()) Move(); } }
};
/* goes on with a radius below the minimum */
struct TrustBadRadiusSmall : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); Radius(); if (Good()) Move(); } }
};
struct TrustBadRadiusFirst : public TrustBase {
	virtual void Run(void) { Delta = maximum_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (!Radius()) break; if (Good()) Move(); } }
};
/* the cost of a rejected candidate is kept */
struct TrustBadState : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (!Radius()) break; if (Good()) Move(); else f1 = f2; } }
};

struct InnerBase : public TrustBase {
	virtual void Run(void) { Delta = initial_Delta; for (iter = 0; iter < Max_Iteration; iter++) { Try(); rho = Ratio(); if (!Radius()) break; if (Good()) Move(); } }
	/* gone: norm squared of the step, mixed product, norm squared of the direction */
	realdp ToBoundary(realdp ee, realdp ed, realdp dd) const { return (sqrt(ed * ed + dd * (Delta * Delta - ee)) - ed) / dd; }
};
struct InnerGood : public InnerBase {
	virtual void tCG_TR(void)
	{
		Vector r(gf1), z(gf1), d(gf1), Hd(gf1);
		Mani->ScalarTimesVector(x1, 0, gf1, &eta2);
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z), ee = 0, ed = 0, dd = zr;
		const realdp n0 = sqrt(Mani->Metric(x1, gf1, gf1)), bound = pow(n0, theta);
		Mani->ScalarTimesVector(x1, -1, z, &d);
		tCGstatusSM = TRSM_MAXITER;
		for (innerIter = 0; innerIter < Max_Inner_Iter; innerIter++)
		{
			HessianEta(d, &Hd);
			const realdp dHd = Mani->Metric(x1, Hd, d);
			const realdp alpha = zr / dHd, ee2 = ee + alpha * (2 * ed + alpha * dd);
			const bool inside = dHd > 0 && ee2 < Delta * Delta;
			if (!inside)
			{
				Mani->VectorLinearCombination(x1, 1, eta2, ToBoundary(ee, ed, dd), d, &eta2);
				tCGstatusSM = dHd < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION;
				return;
			}
			Mani->ScalarVectorAddVector(x1, alpha, d, eta2, &eta2);
			Mani->ScalarVectorAddVector(x1, alpha, Hd, r, &r);
			ee = ee2;
			if (innerIter >= Min_Inner_Iter && sqrt(Mani->Metric(x1, r, r)) <= n0 * std::min(bound, kappa))
			{
				tCGstatusSM = bound > kappa ? TRSM_LCON : TRSM_SCON;
				return;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp zr2 = Mani->Metric(x1, r, z), beta = zr2 / zr;
			Mani->VectorLinearCombination(x1, beta, d, -1, z, &d);
			ed = beta * (ed + alpha * dd); dd = zr2 + beta * beta * dd; zr = zr2;
		}
	}
};
/* the other root */
struct InnerBadBoundary : public InnerBase {
	virtual void tCG_TR(void)
	{
		Vector r(gf1), z(gf1), d(gf1), Hd(gf1);
		Mani->ScalarTimesVector(x1, 0, gf1, &eta2);
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z), ee = 0, ed = 0, dd = zr;
		const realdp n0 = sqrt(Mani->Metric(x1, gf1, gf1)), bound = pow(n0, theta);
		Mani->ScalarTimesVector(x1, -1, z, &d);
		tCGstatusSM = TRSM_MAXITER;
		for (innerIter = 0; innerIter < Max_Inner_Iter; innerIter++)
		{
			HessianEta(d, &Hd);
			const realdp dHd = Mani->Metric(x1, Hd, d);
			const realdp alpha = zr / dHd, ee2 = ee + alpha * (2 * ed + alpha * dd);
			const bool inside = dHd > 0 && ee2 < Delta * Delta;
			if (!inside)
			{
				Mani->VectorLinearCombination(x1, 1, eta2, -ToBoundary(ee, -ed, dd), d, &eta2);
				tCGstatusSM = dHd < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION;
				return;
			}
			Mani->ScalarVectorAddVector(x1, alpha, d, eta2, &eta2);
			Mani->ScalarVectorAddVector(x1, alpha, Hd, r, &r);
			ee = ee2;
			if (innerIter >= Min_Inner_Iter && sqrt(Mani->Metric(x1, r, r)) <= n0 * std::min(bound, kappa))
			{
				tCGstatusSM = bound > kappa ? TRSM_LCON : TRSM_SCON;
				return;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp zr2 = Mani->Metric(x1, r, z), beta = zr2 / zr;
			Mani->VectorLinearCombination(x1, beta, d, -1, z, &d);
			ed = beta * (ed + alpha * dd); dd = zr2 + beta * beta * dd; zr = zr2;
		}
	}
};
/* the norm of the step is not carried on */
struct InnerBadNorm : public InnerBase {
	virtual void tCG_TR(void)
	{
		Vector r(gf1), z(gf1), d(gf1), Hd(gf1);
		Mani->ScalarTimesVector(x1, 0, gf1, &eta2);
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z), ee = 0, ed = 0, dd = zr;
		const realdp n0 = sqrt(Mani->Metric(x1, gf1, gf1)), bound = pow(n0, theta);
		Mani->ScalarTimesVector(x1, -1, z, &d);
		tCGstatusSM = TRSM_MAXITER;
		for (innerIter = 0; innerIter < Max_Inner_Iter; innerIter++)
		{
			HessianEta(d, &Hd);
			const realdp dHd = Mani->Metric(x1, Hd, d);
			const realdp alpha = zr / dHd, ee2 = ee + alpha * (2 * ed + alpha * dd);
			const bool inside = dHd > 0 && ee2 < Delta * Delta;
			if (!inside)
			{
				Mani->VectorLinearCombination(x1, 1, eta2, ToBoundary(ee, ed, dd), d, &eta2);
				tCGstatusSM = dHd < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION;
				return;
			}
			Mani->ScalarVectorAddVector(x1, alpha, d, eta2, &eta2);
			Mani->ScalarVectorAddVector(x1, alpha, Hd, r, &r);
			
			if (innerIter >= Min_Inner_Iter && sqrt(Mani->Metric(x1, r, r)) <= n0 * std::min(bound, kappa))
			{
				tCGstatusSM = bound > kappa ? TRSM_LCON : TRSM_SCON;
				return;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp zr2 = Mani->Metric(x1, r, z), beta = zr2 / zr;
			Mani->VectorLinearCombination(x1, beta, d, -1, z, &d);
			ed = beta * (ed + alpha * dd); dd = zr2 + beta * beta * dd; zr = zr2;
		}
	}
};
/* the mixed product forgets the new part */
struct InnerBadMixed : public InnerBase {
	virtual void tCG_TR(void)
	{
		Vector r(gf1), z(gf1), d(gf1), Hd(gf1);
		Mani->ScalarTimesVector(x1, 0, gf1, &eta2);
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z), ee = 0, ed = 0, dd = zr;
		const realdp n0 = sqrt(Mani->Metric(x1, gf1, gf1)), bound = pow(n0, theta);
		Mani->ScalarTimesVector(x1, -1, z, &d);
		tCGstatusSM = TRSM_MAXITER;
		for (innerIter = 0; innerIter < Max_Inner_Iter; innerIter++)
		{
			HessianEta(d, &Hd);
			const realdp dHd = Mani->Metric(x1, Hd, d);
			const realdp alpha = zr / dHd, ee2 = ee + alpha * (2 * ed + alpha * dd);
			const bool inside = dHd > 0 && ee2 < Delta * Delta;
			if (!inside)
			{
				Mani->VectorLinearCombination(x1, 1, eta2, ToBoundary(ee, ed, dd), d, &eta2);
				tCGstatusSM = dHd < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION;
				return;
			}
			Mani->ScalarVectorAddVector(x1, alpha, d, eta2, &eta2);
			Mani->ScalarVectorAddVector(x1, alpha, Hd, r, &r);
			ee = ee2;
			if (innerIter >= Min_Inner_Iter && sqrt(Mani->Metric(x1, r, r)) <= n0 * std::min(bound, kappa))
			{
				tCGstatusSM = bound > kappa ? TRSM_LCON : TRSM_SCON;
				return;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp zr2 = Mani->Metric(x1, r, z), beta = zr2 / zr;
			Mani->VectorLinearCombination(x1, beta, d, -1, z, &d);
			ed = beta * ed; dd = zr2 + beta * beta * dd; zr = zr2;
		}
	}
};
/* a direction of negative curvature is followed */
struct InnerBadCurvature : public InnerBase {
	virtual void tCG_TR(void)
	{
		Vector r(gf1), z(gf1), d(gf1), Hd(gf1);
		Mani->ScalarTimesVector(x1, 0, gf1, &eta2);
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z), ee = 0, ed = 0, dd = zr;
		const realdp n0 = sqrt(Mani->Metric(x1, gf1, gf1)), bound = pow(n0, theta);
		Mani->ScalarTimesVector(x1, -1, z, &d);
		tCGstatusSM = TRSM_MAXITER;
		for (innerIter = 0; innerIter < Max_Inner_Iter; innerIter++)
		{
			HessianEta(d, &Hd);
			const realdp dHd = Mani->Metric(x1, Hd, d);
			const realdp alpha = zr / dHd, ee2 = ee + alpha * (2 * ed + alpha * dd);
			const bool inside = ee2 < Delta * Delta;
			if (!inside)
			{
				Mani->VectorLinearCombination(x1, 1, eta2, ToBoundary(ee, ed, dd), d, &eta2);
				tCGstatusSM = dHd < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION;
				return;
			}
			Mani->ScalarVectorAddVector(x1, alpha, d, eta2, &eta2);
			Mani->ScalarVectorAddVector(x1, alpha, Hd, r, &r);
			ee = ee2;
			if (innerIter >= Min_Inner_Iter && sqrt(Mani->Metric(x1, r, r)) <= n0 * std::min(bound, kappa))
			{
				tCGstatusSM = bound > kappa ? TRSM_LCON : TRSM_SCON;
				return;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp zr2 = Mani->Metric(x1, r, z), beta = zr2 / zr;
			Mani->VectorLinearCombination(x1, beta, d, -1, z, &d);
			ed = beta * (ed + alpha * dd); dd = zr2 + beta * beta * dd; zr = zr2;
		}
	}
};
/* the residual uses the direction instead of its image */
struct InnerBadResidual : public InnerBase {
	virtual void tCG_TR(void)
	{
		Vector r(gf1), z(gf1), d(gf1), Hd(gf1);
		Mani->ScalarTimesVector(x1, 0, gf1, &eta2);
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z), ee = 0, ed = 0, dd = zr;
		const realdp n0 = sqrt(Mani->Metric(x1, gf1, gf1)), bound = pow(n0, theta);
		Mani->ScalarTimesVector(x1, -1, z, &d);
		tCGstatusSM = TRSM_MAXITER;
		for (innerIter = 0; innerIter < Max_Inner_Iter; innerIter++)
		{
			HessianEta(d, &Hd);
			const realdp dHd = Mani->Metric(x1, Hd, d);
			const realdp alpha = zr / dHd, ee2 = ee + alpha * (2 * ed + alpha * dd);
			const bool inside = dHd > 0 && ee2 < Delta * Delta;
			if (!inside)
			{
				Mani->VectorLinearCombination(x1, 1, eta2, ToBoundary(ee, ed, dd), d, &eta2);
				tCGstatusSM = dHd < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION;
				return;
			}
			Mani->ScalarVectorAddVector(x1, alpha, d, eta2, &eta2);
			Mani->ScalarVectorAddVector(x1, alpha, d, r, &r);
			ee = ee2;
			if (innerIter >= Min_Inner_Iter && sqrt(Mani->Metric(x1, r, r)) <= n0 * std::min(bound, kappa))
			{
				tCGstatusSM = bound > kappa ? TRSM_LCON : TRSM_SCON;
				return;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp zr2 = Mani->Metric(x1, r, z), beta = zr2 / zr;
			Mani->VectorLinearCombination(x1, beta, d, -1, z, &d);
			ed = beta * (ed + alpha * dd); dd = zr2 + beta * beta * dd; zr = zr2;
		}
	}
};
/* the two rates are exchanged */
struct InnerBadStatus : public InnerBase {
	virtual void tCG_TR(void)
	{
		Vector r(gf1), z(gf1), d(gf1), Hd(gf1);
		Mani->ScalarTimesVector(x1, 0, gf1, &eta2);
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z), ee = 0, ed = 0, dd = zr;
		const realdp n0 = sqrt(Mani->Metric(x1, gf1, gf1)), bound = pow(n0, theta);
		Mani->ScalarTimesVector(x1, -1, z, &d);
		tCGstatusSM = TRSM_MAXITER;
		for (innerIter = 0; innerIter < Max_Inner_Iter; innerIter++)
		{
			HessianEta(d, &Hd);
			const realdp dHd = Mani->Metric(x1, Hd, d);
			const realdp alpha = zr / dHd, ee2 = ee + alpha * (2 * ed + alpha * dd);
			const bool inside = dHd > 0 && ee2 < Delta * Delta;
			if (!inside)
			{
				Mani->VectorLinearCombination(x1, 1, eta2, ToBoundary(ee, ed, dd), d, &eta2);
				tCGstatusSM = dHd < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION;
				return;
			}
			Mani->ScalarVectorAddVector(x1, alpha, d, eta2, &eta2);
			Mani->ScalarVectorAddVector(x1, alpha, Hd, r, &r);
			ee = ee2;
			if (innerIter >= Min_Inner_Iter && sqrt(Mani->Metric(x1, r, r)) <= n0 * std::min(bound, kappa))
			{
				tCGstatusSM = bound < kappa ? TRSM_LCON : TRSM_SCON;
				return;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp zr2 = Mani->Metric(x1, r, z), beta = zr2 / zr;
			Mani->VectorLinearCombination(x1, beta, d, -1, z, &d);
			ed = beta * (ed + alpha * dd); dd = zr2 + beta * beta * dd; zr = zr2;
		}
	}
};
