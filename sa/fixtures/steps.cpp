/* Self-test of the step rules: <Kind>Good* must not be reported, <Kind>Bad<Rule>* by the rule named. */
#include "Solvers/SolversSMLS.h"
#include "Solvers/RCG.h"
#include "Solvers/RNewton.h"
using namespace ROPTLIB;

struct CgBase : public SolversSMLS {
	Vector Pgf1, Pgf2;
	realdp sigma;
	RCGmethods RCGmethod;
	Vector y, d;
	virtual bool Far(void) const
	{
		Vector t(gf1);
		Mani->VectorTransport(x1, eta2, x2, gf1, &t);
		return fabs(Mani->Metric(x2, t, gf2)) > 0.1 * Mani->Metric(x1, gf1, gf1);
	}
	virtual realdp Sigma(void)
	{
		const realdp gg = Mani->Metric(x1, gf1, Pgf1), hh = Mani->Metric(x2, gf2, Pgf2), hy = Mani->Metric(x2, y, Pgf2), yd = Mani->Metric(x2, d, y);
		if (RCGmethod == FLETCHER_REEVES) return hh / gg;
		if (RCGmethod == HESTENES_STIEFEL) return hy / yd;
		if (RCGmethod == DAI_YUAN) return hh / yd;
		if (RCGmethod == HAGER_ZHANG) return (hy - 2 * Mani->Metric(x2, y, y) * Mani->Metric(x2, d, Pgf2) / yd) / yd;
		if (RCGmethod == POLAK_RIBIERE_MOD) return hy / gg > 0 ? hy / gg : 0;
		if (hy / gg > hh / gg) return hh / gg;
		return (hy / gg < -hh / gg) ? -hh / gg : hy / gg;
	}
	virtual void Combine(void) { eta1 = sigma * d - Pgf2; }
	virtual void UpdateData(void)
	{
		Prob->PreConditioner(x2, gf2, &Pgf2);
		Mani->VectorTransport(x1, eta2, x2, gf1, &y);
		y = gf2 - y;
		Mani->VectorTransport(x1, eta2, x2, eta1, &d);
		sigma = Far() ? 0 : Sigma();
		Combine();
		Pgf1 = Pgf2;
	}
};
struct CgGood : public CgBase { };
/* Polak-Ribiere without the restart at negative values */
struct CgBadCoefficientPR : public CgBase {
	virtual realdp Sigma(void)
	{
		if (RCGmethod == POLAK_RIBIERE_MOD) return Mani->Metric(x2, y, Pgf2) / Mani->Metric(x1, gf1, Pgf1);
		return CgBase::Sigma();
	}
};
/* Fletcher-Reeves with the old preconditioned gradient */
struct CgBadCoefficientFR : public CgBase {
	virtual realdp Sigma(void)
	{
		if (RCGmethod == FLETCHER_REEVES) return Mani->Metric(x2, gf2, Pgf2) / Mani->Metric(x1, gf1, gf2);
		return CgBase::Sigma();
	}
};
/* the sign of the inner product is not dropped */
struct CgBadRestart : public CgBase {
	virtual bool Far(void) const
	{
		Vector t(gf1);
		Mani->VectorTransport(x1, eta2, x2, gf1, &t);
		return Mani->Metric(x2, t, gf2) > 0.1 * Mani->Metric(x1, gf1, gf1);
	}
};
/* the old direction is not transported */
struct CgBadCombine : public CgBase {
	virtual void Combine(void) { eta1 = sigma * eta1 - Pgf2; }
};

struct DirBase : public SolversSMLS {
	Vector Pgf1;
	bool Down(void) const { return Mani->Metric(x1, gf1, eta1) < -sqrt(std::numeric_limits<realdp>::epsilon()) * (ngf1 * ngf1); }
};
struct DirGood : public DirBase {
	virtual void GetSearchDir(void)
	{
		if (iter > 0 && Down()) return;
		Prob->PreConditioner(x1, gf1, &Pgf1);
		eta1 = -1 * Pgf1;
		if (!Down()) eta1 = -1 * gf1;
	}
};
/* a preconditioner is trusted */
struct DirBadDescentTrust : public DirBase {
	virtual void GetSearchDir(void)
	{
		if (iter > 0 && Down()) return;
		Prob->PreConditioner(x1, gf1, &Pgf1);
		eta1 = -1 * Pgf1;
	}
};
/* the direction left over from a run before is used in the first iteration */
struct DirBadDescentFirst : public DirBase {
	virtual void GetSearchDir(void)
	{
		if (Down()) return;
		Prob->PreConditioner(x1, gf1, &Pgf1);
		eta1 = -1 * Pgf1;
		if (!Down()) eta1 = -1 * gf1;
	}
};

struct StartBase : public SolversSMLS {
	realdp Safe(realdp t, realdp q) const
	{
		if (t < q / 100) t = q;
		if (t < std::numeric_limits<realdp>::epsilon()) return Initstepsize / ngf1;
		return t;
	}
	realdp Choose(realdp ss, realdp sy, realdp yy)
	{
		const realdp BB1 = ss / sy, BB2 = sy / yy;
		pre_BBs.push_front(BB2);
		if (pre_BBs.size() > Num_pre_BB) pre_BBs.pop_back();
		if (BBratio == 0) return BB1;
		if (BBratio == 1 && Num_pre_BB == 0) return BB2;
		realdp low = BB2;
		for (std::list<realdp>::iterator j = pre_BBs.begin(); j != pre_BBs.end(); j++)
			if (*j < low) low = *j;
		return (low / BB1 < BBratio) ? low : BB1;
	}
	virtual realdp Barzilai(void)
	{
		Vector s(gf1), y(gf1);
		if (InitSteptype == LSSM_BBSTEP)
		{
			Mani->VectorTransport(x2, eta2, x1, eta2, &s);
			Mani->VectorTransport(x2, eta2, x1, gf2, &y);
			y = gf1 - y;
		}
		else
		{
			s = x1 - x2;
			y = gf1 - gf2;
		}
		return Choose(Mani->Metric(x1, s, s), Mani->Metric(x1, s, y), Mani->Metric(x1, y, y));
	}
	virtual void InitialStepSize(void)
	{
		if (iter == 0) { stepsize = Initstepsize; return; }
		const realdp q = 2 * (f1 - pre_funs.front()) / initialslopepre;
		realdp t = 1;
		if (InitSteptype == LSSM_QUADINT) t = q;
		else if (InitSteptype == LSSM_QUADINTMOD) t = (1.01 * q > 1) ? 1 : 1.01 * q;
		else if (InitSteptype == LSSM_BBSTEP || InitSteptype == LSSM_EXTRBBSTEP) t = Barzilai();
		stepsize = Safe(t, q);
	}
};
struct StartGood : public StartBase { };
/* differences of the wrong gradients: the roles of x1 and x2 before they are exchanged */
struct StartBadStart : public StartBase {
	virtual realdp Barzilai(void)
	{
		Vector s(gf1), y(gf1);
		if (InitSteptype == LSSM_BBSTEP)
		{
			Mani->VectorTransport(x2, eta2, x1, eta2, &s);
			Mani->VectorTransport(x2, eta2, x1, gf1, &y);
			y = gf2 - y;
		}
		else
		{
			s = x1 - x2;
			y = gf1 - gf2;
		}
		return Choose(Mani->Metric(x1, s, s), Mani->Metric(x1, s, y), Mani->Metric(x1, y, y));
	}
};
/* only the first safeguard */
struct StartBadStartSafe : public StartBase {
	virtual void InitialStepSize(void)
	{
		if (iter == 0) { stepsize = Initstepsize; return; }
		const realdp q = 2 * (f1 - pre_funs.front()) / initialslopepre;
		realdp t = 1;
		if (InitSteptype == LSSM_QUADINT) t = q;
		else if (InitSteptype == LSSM_QUADINTMOD) t = (1.01 * q > 1) ? 1 : 1.01 * q;
		else if (InitSteptype != LSSM_ONESTEP) t = Barzilai();
		stepsize = (t < q / 100) ? q : t;
	}
};

struct NewtonBase : public SolversSMLS {
	tCGLSSMstatusSet tCGLSSMstatus;
	integer Min_Inner_Iter, Max_Inner_Iter, innerIter;
	realdp theta, kappa;
	Vector r, z, d, Hd;
	virtual void Next(realdp beta) { d = beta * d - z; }
	virtual void Leave(integer j) { if (tCGLSSMstatus != LSSM_LCON && tCGLSSMstatus != LSSM_SCON && j == 0) eta1 = d; }
	virtual void tCG_LS(void)
	{
		r = gf1;
		Prob->PreConditioner(x1, r, &z);
		realdp zr = Mani->Metric(x1, r, z);
		const realdp n0 = sqrt(Mani->Metric(x1, r, r));
		d = -1 * z;
		tCGLSSMstatus = LSSM_MAXITER;
		integer j = 0;
		for (; j < Max_Inner_Iter; j++)
		{
			Prob->HessianEta(x1, d, &Hd);
			const realdp curv = Mani->Metric(x1, Hd, d);
			if (!(curv > 0)) { tCGLSSMstatus = LSSM_NEGCURVTURE; break; }
			eta1 = eta1 + (zr / curv) * d;
			r = r + (zr / curv) * Hd;
			const realdp p = pow(n0, theta), bound = kappa < p ? kappa : p;
			if (j >= Min_Inner_Iter && !(sqrt(Mani->Metric(x1, r, r)) > n0 * bound))
			{
				tCGLSSMstatus = kappa < p ? LSSM_LCON : LSSM_SCON;
				break;
			}
			Prob->PreConditioner(x1, r, &z);
			const realdp old = zr;
			zr = Mani->Metric(x1, z, r);
			Next(zr / old);
		}
		innerIter = j;
		Leave(j);
	}
};
struct NewtonGood : public NewtonBase { };
/* the direction is not conjugate: the preconditioner is left out */
struct NewtonBadNewtonDirection : public NewtonBase {
	virtual void Next(realdp beta) { d = beta * d - r; }
};
/* the step that converged in the first round is thrown away */
struct NewtonBadNewtonFirst : public NewtonBase {
	virtual void Leave(integer j) { if (j == 0) eta1 = d; }
};
struct HistoryBase : public SolversSMLS {
	Vector Extra;
	virtual void Direction(void) { GetSearchDir(); initialslope = Mani->Metric(x1, eta1, gf1); InitialStepSize(); }
	virtual void Keep(realdp old)
	{
		pre_funs.push_front(old);
		while (static_cast<integer> (pre_funs.size()) > Num_pre_funs)
			pre_funs.pop_back();
	}
	virtual void Slope(void) { initialslopepre = initialslope; }
	virtual void Swap(void)
	{
		Vector t = x2;
		x2 = x1; x1 = t;
		t = gf1; gf1 = gf2; gf2 = t;
	}
	virtual void Run(void)
	{
		for (iter = 0; iter < Max_Iteration && !IsStopped(); iter++)
		{
			Direction();
			LinesearchArmijo();
			UpdateData();
			Swap();
			const realdp old = f1;
			f1 = f2;
			Keep(old);
			Slope();
		}
	}
};
struct HistoryGood : public HistoryBase { };
/* the new value instead of the old one */
struct HistoryBadHistoryValue : public HistoryBase {
	virtual void Keep(realdp old) { pre_funs.push_front(f1); if (pre_funs.size() > 3) pre_funs.pop_back(); }
};
/* the slope at the new point */
struct HistoryBadHistorySlope : public HistoryBase {
	virtual void Slope(void) { initialslopepre = newslope; }
};
/* the old gradient is thrown away */
struct HistoryBadHistoryPoint : public HistoryBase {
	virtual void Swap(void) { Vector t = x2; x2 = x1; x1 = t; gf1 = gf2; }
};
