/* Self-test of the rules on products: ProductTestGood is correct, each other class breaks one rule. */
#include "Manifolds/MultiManifolds.h"
using namespace ROPTLIB;

struct ProductTestGood : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			manifolds[i]->SetIsIntrApproach(own && IsIntrApproach);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
			}
			manifolds[i]->SetIsIntrApproach(own);
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};

struct ProductTestComponents : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			manifolds[i]->SetIsIntrApproach(own && IsIntrApproach);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				result += manifolds[i]->Metric(x.GetElement(j), xix.GetElement(j), xix.GetElement(j));
			}
			manifolds[i]->SetIsIntrApproach(own);
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};

struct ProductTestRange : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			manifolds[i]->SetIsIntrApproach(own && IsIntrApproach);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1] - 1; j++)
			{
				result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
			}
			manifolds[i]->SetIsIntrApproach(own);
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};

struct ProductTestEvery : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			manifolds[i]->SetIsIntrApproach(own && IsIntrApproach);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				if (j > 3) continue;
				result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
			}
			manifolds[i]->SetIsIntrApproach(own);
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};

struct ProductTestSum : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			manifolds[i]->SetIsIntrApproach(own && IsIntrApproach);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				result -= manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
			}
			manifolds[i]->SetIsIntrApproach(own);
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};

struct ProductTestBlock : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			manifolds[i]->SetIsIntrApproach(own && IsIntrApproach);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
			}
			manifolds[i]->SetIsIntrApproach(own);
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to + 1;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};

struct ProductTestRepresentation : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
			}
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};

struct ProductTestRestored : public MultiManifolds {
	virtual realdp Metric(const Variable &x, const Vector &etax, const Vector &xix) const
	{
		realdp result = 0;
		for (integer i = 0; i < numoftypes; i++)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			manifolds[i]->SetIsIntrApproach(own && IsIntrApproach);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
			}
		}
		return result;
	}
	virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
	{
		*result = Hx;
		integer from = 0, i = 0;
		while (i < numoftypes)
		{
			bool own = manifolds[i]->GetIsIntrinsic();
			if (!IsIntrApproach) manifolds[i]->SetIsIntrApproach(false);
			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
			{
				const Vector &e = etax.GetElement(j);
				integer to = from + e.Getlength();
				Both(i, j, x, e, y, from, to, result);
				from = to;
			}
			manifolds[i]->SetIsIntrApproach(own);
			i++;
		}
		return *result;
	}
	void Both(integer i, integer j, const Variable &x, const Vector &e, const Variable &y, integer from, integer to, LinearOPE *result) const
	{
		manifolds[i]->HInvTran(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
		manifolds[i]->TranH(x.GetElement(j), e, y.GetElement(j), *result, from, to, result);
	}
};
