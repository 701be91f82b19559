/* Self-test of the representation interpreter: the name says which rule must report. */
#include "Manifolds/Manifold.h"
using namespace ROPTLIB;

struct SelfTestGood : public Manifold {
	virtual Vector &ObtainIntr(const Variable &x, const Vector &etax, Vector *result) const
	{
		*result = x * etax;
		return *result;
	}
	virtual Vector &ObtainExtr(const Variable &x, const Vector &intretax, Vector *result) const
	{
		*result = x * intretax;
		return *result;
	}
	virtual Vector &ExtrProjection(const Variable &x, const Vector &etax, Vector *result) const
	{
		*result = x * etax;
		return *result;
	}
	virtual Variable &Retraction(const Variable &x, const Vector &etax, Variable *result) const
	{
		Vector exetax(EMPTYEXTR);
		if (IsIntrApproach)
			ObtainExtr(x, etax, &exetax);
		else
			exetax = etax;
		*result = x * exetax;
		return *result;
	}
	virtual Vector &VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
	{
		if (IsIntrApproach)
		{
			Vector exxix(EMPTYEXTR), t(EMPTYEXTR);
			ObtainExtr(x, xix, &exxix);
			ExtrProjection(y, exxix, &t);
			return ObtainIntr(y, t, result);
		}
		return ExtrProjection(y, xix, result);
	}
};

struct SelfTestArgument : public SelfTestGood {
	virtual Vector &VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
	{
		return ExtrProjection(y, xix, result);
	}
};

struct SelfTestBase : public SelfTestGood {
	virtual Vector &VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
	{
		if (IsIntrApproach)
		{
			Vector exxix(EMPTYEXTR), t(EMPTYEXTR);
			ObtainExtr(x, xix, &exxix);
			ExtrProjection(y, exxix, &t);
			return ObtainIntr(x, t, result);
		}
		return ExtrProjection(y, xix, result);
	}
};

struct SelfTestResult : public SelfTestGood {
	virtual Vector &VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
	{
		if (IsIntrApproach)
		{
			Vector exxix(EMPTYEXTR);
			ObtainExtr(x, xix, &exxix);
			return ExtrProjection(y, exxix, result);
		}
		return ExtrProjection(y, xix, result);
	}
};

struct SelfTestFormula : public SelfTestGood {
	virtual Variable &Retraction(const Variable &x, const Vector &etax, Variable *result) const
	{
		*result = x * etax;
		return *result;
	}
};
