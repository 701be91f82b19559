/* Self-test of the in-place analysis: in every method the second argument may be the same object as the result. */
#include "Manifolds/Manifold.h"
using namespace ROPTLIB;

struct InPlaceTest {
	Vector &GoodOrder(const Variable &x, const Vector &v, Vector *result) const { Vector t = v * 2; *result = v; result->AlphaXaddThis(1, t); return *result; }
	Vector &GoodCopy(const Variable &x, const Vector &v, Vector *result) const { Vector inv = v; result->SetToZeros(); return result->AlphaXaddThis(1, inv); }
	Vector &GoodEntries(const Variable &x, const Vector &v, Vector *result) const
	{
		const realdp *vptr = v.ObtainReadData();
		realdp *rptr = result->ObtainWritePartialData();
		for (integer i = 0; i < v.Getlength(); i++) rptr[i] = 2 * vptr[i];
		return *result;
	}
	Vector &GoodLocals(const Variable &x, const Vector &v, Vector *result) const
	{
		const realdp *vptr = v.ObtainReadData();
		realdp *rptr = result->ObtainWritePartialData();
		for (integer i = 0; i < v.Getrow(); i++)
		{
			for (integer j = 0; j < v.Getcol(); j++)
			{
				integer k = i + j * v.Getrow();
				realdp t = vptr[i + j * v.Getrow()];
				rptr[k] = t * t;
			}
		}
		return *result;
	}
	Vector &BadSecondLook(const Variable &x, const Vector &v, Vector *result) const
	{
		const realdp *vptr = v.ObtainReadData();
		realdp *rptr = result->ObtainWritePartialData();
		realdp s = 0;
		for (integer i = 0; i < v.Getlength(); i++) { rptr[i] = 2 * vptr[i]; s += vptr[i]; }
		return result->ScalarTimesThis(s);
	}
	Vector &BadSecondLoop(const Variable &x, const Vector &v, Vector *result) const
	{
		const realdp *vptr = v.ObtainReadData();
		realdp *rptr = result->ObtainWritePartialData();
		realdp s = 0;
		for (integer i = 0; i < v.Getlength(); i++) rptr[i] = 2 * vptr[i];
		for (integer i = 0; i < v.Getlength(); i++) s += vptr[i];
		return result->ScalarTimesThis(s);
	}
	Vector &GoodParts(const Variable &x, const Vector &v, Vector *result) const
	{
		Vector inv = v;
		result->NewMemoryOnWrite();
		for (integer i = 0; i < x.Getnumofelements(); i++) Double(inv.GetElement(i), &result->GetElement(i));
		return *result;
	}
	Vector &GoodHandOn(const Variable &x, const Vector &v, Vector *result) const { return GoodCopy(x, v, result); }
	Vector &BadOrder(const Variable &x, const Vector &v, Vector *result) const { *result = x; result->AlphaXaddThis(1, v); return *result; }
	Vector &BadEntries(const Variable &x, const Vector &v, Vector *result) const
	{
		const realdp *vptr = v.ObtainReadData();
		realdp *rptr = result->ObtainWritePartialData();
		for (integer i = 0; i + 1 < v.Getlength(); i++) rptr[i + 1] = 2 * vptr[i];
		return *result;
	}
	Vector &BadBranch(const Variable &x, const Vector &v, Vector *result) const
	{
		if (x.Getlength() > 3) result->ScalarTimesThis(2);
		return Double(v, result);
	}
	Vector &BadHandOn(const Variable &x, const Vector &v, Vector *result) const { return BadOrder(x, v, result); }
	Vector &Double(const Vector &v, Vector *result) const { *result = v; result->ScalarTimesThis(2); return *result; }
};
