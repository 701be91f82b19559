/* Self-test of the secant rules: SecGood* must not be reported, SecBad<Rule>* by the rule named. */
#include "Solvers/SolversSMLS.h"
#include "Solvers/SolversSMTR.h"
using namespace ROPTLIB;

struct SecBase : public SolversSMLS {
	Vector s, y;
	realdp inpsy, inpss, betay, nu, mu, rho, gamma;
	bool isconvex, isupdated;
	LinearOPE H;
	void Pair(void)
	{
		Mani->VectorTransport(x1, eta2, x2, eta2, &s);
		Vector t(gf1);
		Mani->VectorTransport(x1, eta2, x2, gf1, &t);
		betay = Mani->Beta(x1, eta2);
		y = gf2 / betay - t;
		inpsy = Mani->Metric(x2, s, y);
		inpss = Mani->Metric(x2, s, s);
	}
	bool Curved(void) const
	{
		const realdp eps = std::numeric_limits<realdp>::epsilon();
		if (inpsy / inpss < nu * pow(ngf2, mu)) return false;
		if (ngf2 / ngf0 < 1e-3) return true;
		return inpss > eps && inpsy > eps;
	}
	virtual void GetSearchDir(void)
	{
		Vector p(gf1);
		Mani->LinearOPEEta(x1, H, gf1, &p);
		eta1 = -1 * p;
	}
};

/* H + (s z^T + z s^T) / <s,y> - <z,y> s s^T / <s,y>^2 with z = s - H y */
struct SecGoodClosed : public SecBase {
	virtual void UpdateData(void)
	{
		Pair();
		Mani->TranHInvTran(x1, eta2, x2, H, &H);
		isupdated = false;
		if (!Curved()) return;
		Vector Hy(y), z(y);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->VectorLinearCombination(x2, 1, s, -1, Hy, &z);
		const realdp zy = Mani->Metric(x2, z, y);
		Mani->HaddScaledRank1OPE(x2, H, 1 / inpsy, s, z, &H);
		Mani->HaddScaledRank1OPE(x2, H, 1 / inpsy, z, s, &H);
		Mani->HaddScaledRank1OPE(x2, H, -zy / (inpsy * inpsy), s, s, &H);
		isupdated = true;
	}
};

/* y without the factor of the locking condition */
struct SecBadSecantLocking : public SecGoodClosed {
	virtual void UpdateData(void)
	{
		Mani->VectorTransport(x1, eta2, x2, eta2, &s);
		Vector t(gf1), Hy(gf1);
		Mani->VectorTransport(x1, eta2, x2, gf1, &t);
		y = gf2 - t;
		inpsy = Mani->Metric(x2, s, y);
		inpss = Mani->Metric(x2, s, s);
		Mani->TranHInvTran(x1, eta2, x2, H, &H);
		isupdated = Curved();
		if (!isupdated) return;
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, s, Hy, &H);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, Hy, s, &H);
		Mani->HaddScaledRank1OPE(x2, H, 1 / inpsy, s, s, &H);
	}
};

/* the second product is taken from before the first term was added: satisfies nothing */
struct SecBadSecantStale : public SecBase {
	virtual void UpdateData(void)
	{
		Pair();
		Mani->TranHInvTran(x1, eta2, x2, H, &H);
		isupdated = Curved();
		if (!isupdated) return;
		Vector Hy(y);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, s, Hy, &H);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, Hy, s, &H);
		Mani->HaddScaledRank1OPE(x2, H, 1 / inpsy, s, s, &H);
	}
};

/* the DFP update: satisfies the secant equation but is another method */
struct SecBadFormulaDFP : public SecBase {
	virtual void UpdateData(void)
	{
		Pair();
		Mani->TranHInvTran(x1, eta2, x2, H, &H);
		isupdated = Curved();
		if (!isupdated) return;
		Vector Hy(y);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / Mani->Metric(x2, y, Hy), Hy, Hy, &H);
		Mani->HaddScaledRank1OPE(x2, H, 1 / inpsy, s, s, &H);
	}
};

/* an update that is refused leaves the operator in the old tangent space */
struct SecBadKeptThere : public SecBase {
	virtual void UpdateData(void)
	{
		Pair();
		isupdated = Curved();
		if (!isupdated) return;
		Mani->TranHInvTran(x1, eta2, x2, H, &H);
		Vector Hy(y);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, s, Hy, &H);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, Hy, s, &H);
		Mani->HaddScaledRank1OPE(x2, H, 1 / inpsy, s, s, &H);
	}
};

/* the curvature condition is not asked for close to a solution */
struct SecBadGuard : public SecGoodClosed {
	virtual void UpdateData(void)
	{
		Pair();
		Mani->TranHInvTran(x1, eta2, x2, H, &H);
		isupdated = ngf2 / ngf0 < 1e-3 || Curved();
		if (!isupdated) return;
		Vector Hy(y);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, s, Hy, &H);
		Mani->LinearOPEEta(x2, H, y, &Hy);
		Mani->HaddScaledRank1OPE(x2, H, -1 / inpsy, Hy, s, &H);
		Mani->HaddScaledRank1OPE(x2, H, 1 / inpsy, s, s, &H);
	}
};

/* the direction of the last iteration's gradient */
struct SecBadDirection : public SecGoodClosed {
	virtual void GetSearchDir(void)
	{
		Mani->LinearOPEEta(x1, H, gf2, &eta1);
		Mani->ScalarTimesVector(x1, -1, eta1, &eta1);
	}
};

struct LimBase : public SecBase {
	Vector *S, *Y;
	realdp *RHO;
	integer Currentlength, LengthSY, beginidx;
	realdp inpyy;
	virtual void GetSearchDir(void) { Product(gf1, &eta1); eta1 = -1 * eta1; }
	/* the same recursion, with the coefficients kept by position and the loops counted otherwise */
	virtual Vector &Product(const Vector &v, Vector *r)
	{
		realdp *a = new realdp[Currentlength];
		*r = v;
		for (integer k = Currentlength; k >= 1; k--)
		{
			const integer j = (beginidx + k - 1) % LengthSY;
			a[k - 1] = Mani->Metric(x1, *r, S[j]) * RHO[j];
			*r = *r - a[k - 1] * Y[j];
		}
		*r = gamma * *r;
		integer k = 0;
		while (k < Currentlength)
		{
			const integer j = (beginidx + k) % LengthSY;
			*r = *r + (a[k] - Mani->Metric(x1, *r, Y[j]) * RHO[j]) * S[j];
			k++;
		}
		delete[] a;
		return *r;
	}
	void Carry(void)
	{
		for (integer i = 0; i < Currentlength; i++)
		{
			Mani->VectorTransport(x1, eta2, x2, S[i], &S[i]);
			Mani->VectorTransport(x1, eta2, x2, Y[i], &Y[i]);
		}
	}
	virtual void Store(integer i) { S[i] = s; Y[i] = y; RHO[i] = 1 / inpsy; }
	virtual void UpdateData(void)
	{
		Pair();
		inpyy = Mani->Metric(x2, y, y);
		Carry();
		isupdated = Curved();
		if (!isupdated) return;
		gamma = inpsy / inpyy;
		if (LengthSY <= 0) return;
		if (Currentlength < LengthSY)
			Store(Currentlength++);
		else
		{
			Store(beginidx);
			beginidx = (beginidx + 1) % LengthSY;
		}
	}
};

struct SecGoodLimited : public LimBase { };

/* rho of the pair before */
struct SecBadPairRho : public LimBase {
	virtual void Store(integer i) { S[i] = s; Y[i] = y; RHO[i] = rho; rho = 1 / inpsy; }
};

/* only the steps are transported */
struct SecBadCarry : public LimBase {
	virtual void UpdateData(void)
	{
		Pair();
		inpyy = Mani->Metric(x2, y, y);
		for (integer i = 0; i < Currentlength; i++)
			Mani->VectorTransport(x1, eta2, x2, S[i], &S[i]);
		isupdated = Curved();
		if (!isupdated) return;
		gamma = inpsy / inpyy;
		if (LengthSY <= 0) return;
		if (Currentlength < LengthSY)
			Store(Currentlength++);
		else
		{
			Store(beginidx);
			beginidx = (beginidx + 1) % LengthSY;
		}
	}
};

/* both recursions from the oldest pair on */
struct SecBadTwoloopOrder : public LimBase {
	virtual Vector &Product(const Vector &v, Vector *r)
	{
		realdp *a = new realdp[Currentlength];
		*r = v;
		for (integer k = 0; k < Currentlength; k++)
		{
			const integer j = (beginidx + k) % LengthSY;
			a[k] = Mani->Metric(x1, *r, S[j]) * RHO[j];
			*r = *r - a[k] * Y[j];
		}
		*r = gamma * *r;
		for (integer k = 0; k < Currentlength; k++)
		{
			const integer j = (beginidx + k) % LengthSY;
			*r = *r + (a[k] - Mani->Metric(x1, *r, Y[j]) * RHO[j]) * S[j];
		}
		delete[] a;
		return *r;
	}
};

/* the oldest pair is left out of the second recursion */
struct SecBadTwoloopShort : public LimBase {
	virtual Vector &Product(const Vector &v, Vector *r)
	{
		realdp *a = new realdp[Currentlength];
		*r = v;
		for (integer k = Currentlength - 1; k >= 0; k--)
		{
			const integer j = (beginidx + k) % LengthSY;
			a[k] = Mani->Metric(x1, *r, S[j]) * RHO[j];
			*r = *r - a[k] * Y[j];
		}
		*r = gamma * *r;
		for (integer k = 1; k < Currentlength; k++)
		{
			const integer j = (beginidx + k) % LengthSY;
			*r = *r + (a[k] - Mani->Metric(x1, *r, Y[j]) * RHO[j]) * S[j];
		}
		delete[] a;
		return *r;
	}
};

/* a symmetric rank-one update written out */
struct TrustSecBase : public SolversSMTR {
	Vector s, y;
	LinearOPE B;
	bool isupdated;
	virtual Vector &HessianEta(const Vector &Eta, Vector *result) { return Mani->LinearOPEEta(x1, B, Eta, result); }
};

struct SecGoodTrustRankOne : public TrustSecBase {
	virtual void Acceptence(void) { Mani->TranHInvTran(x1, eta2, x2, B, &B); }
	virtual void UpdateData(void)
	{
		const realdp eps = std::numeric_limits<realdp>::epsilon();
		Prob->Grad(x2, &gf2);
		Mani->InverseVectorTransport(x1, eta2, x2, gf2, &y);
		y = y - gf1;
		s = eta2;
		Vector z(y);
		Mani->LinearOPEEta(x1, B, s, &z);
		z = y - z;
		const realdp sz = Mani->Metric(x1, s, z), zz = Mani->Metric(x1, z, z), ss = Mani->Metric(x1, s, s);
		isupdated = !(sz * sz < eps * ss * zz) && (!(zz < eps) || ngf2 / ngf0 < 1e-3);
		if (isupdated)
			Mani->HaddScaledRank1OPE(x1, B, 1 / sz, z, z, &B);
	}
};

/* the denominator is <y, z> */
struct SecBadSecantTrust : public TrustSecBase {
	virtual void UpdateData(void)
	{
		const realdp eps = std::numeric_limits<realdp>::epsilon();
		Prob->Grad(x2, &gf2);
		Mani->InverseVectorTransport(x1, eta2, x2, gf2, &y);
		y = y - gf1;
		s = eta2;
		Vector z(y);
		z = y - Heta2;
		const realdp sz = Mani->Metric(x1, s, z), zz = Mani->Metric(x1, z, z), ss = Mani->Metric(x1, s, s);
		isupdated = !(sz * sz < eps * ss * zz) && (!(zz < eps) || ngf2 / ngf0 < 1e-3);
		if (isupdated)
			Mani->HaddScaledRank1OPE(x1, B, 1 / Mani->Metric(x1, y, z), z, z, &B);
	}
};

/* the operator stays where it is */
struct SecBadCarryTrust : public SecGoodTrustRankOne {
	virtual void Acceptence(void) { }
};
