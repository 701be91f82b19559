/* Self-test of the run interpreter: the name says which rule must report (SelfTestBad*) or that none may (SelfTestBase*). */
#include "Solvers/SolversSM.h"
using namespace ROPTLIB;

struct SelfTestBase : public SolversSM {
	virtual void Run(void) {
		f1 = Prob->f(x1); nf++; f2 = f1;
		Prob->Grad(x1, &gf1); ng++;
		ngf0 = sqrt(Mani->Metric(x1, gf1, gf1)); ngf1 = ngf0; ngf2 = ngf1;
		bool stop = false;
		while (!stop && iter < Max_Iteration) {
			Step();
			if (std::isnan(f2) || std::isinf(f2))
				break;
			ngf2 = sqrt(Mani->Metric(x2, gf2, gf2));
			stop = ngf2 < Tolerance;
			Take();
			iter++;
		}
	}
	void Step(void) {
		Vector d(gf1);
		Mani->ScalarTimesVector(x1, -1, gf1, &d);
		Mani->Retraction(x1, d, &x2); nR++;
		f2 = Prob->f(x2); nf++;
		Prob->Grad(x2, &gf2); ng++;
	}
	void Take(void) {
		Variable t(x1);
		x1 = x2; x2 = t;
		Vector g(gf1);
		gf1 = gf2; gf2 = g;
		f1 = f2; ngf1 = ngf2;
	}
};

struct SelfTestBadBase : public SelfTestBase {
	virtual void Run(void) {
		f1 = Prob->f(x1); f2 = f1;
		Prob->Grad(x1, &gf1);
		ngf0 = sqrt(Mani->Metric(x1, gf1, gf1)); ngf1 = ngf0;
		Step();
		ngf2 = sqrt(Mani->Metric(x2, gf1, gf1));
	}
};

struct SelfTestBadStale : public SelfTestBase {
	virtual void Run(void) {
		f1 = Prob->f(x1); f2 = f1;
		Prob->Grad(x1, &gf1);
		ngf0 = sqrt(Mani->Metric(x1, gf1, gf1)); ngf1 = ngf0;
		Step();
		Mani->Retraction(x1, gf1, &x2);
		ngf2 = sqrt(Mani->Metric(x2, gf2, gf2));
	}
};

struct SelfTestBadExit : public SelfTestBase {
	virtual void Run(void) {
		f1 = Prob->f(x1); f2 = f1;
		Prob->Grad(x1, &gf1);
		ngf0 = sqrt(Mani->Metric(x1, gf1, gf1)); ngf1 = ngf0;
		Step();
		if (std::isnan(f2) || std::isinf(f2))
			return;
		ngf2 = sqrt(Mani->Metric(x2, gf2, gf2));
		Take();
		if (ngf1 < Tolerance)
			f1 = f2 + 1;
	}
};

struct SelfTestBadOrder : public SelfTestBase {
	virtual void Run(void) {
		f1 = Prob->f(x1);
		Prob->Grad(x1, &gf1);
		Mani->Retraction(x1, gf1, &x2);
		Prob->Grad(x2, &gf2);
		f2 = Prob->f(x2);
	}
};

struct SelfTestBadAdopt : public SelfTestBase {
	virtual void Run(void) {
		f1 = Prob->f(x1); f2 = f1;
		Prob->Grad(x1, &gf1);
		ngf0 = sqrt(Mani->Metric(x1, gf1, gf1)); ngf1 = ngf0;
		Step();
		if (std::isnan(f2))
			return;
		ngf2 = sqrt(Mani->Metric(x2, gf2, gf2));
		Take();
	}
};

struct SelfTestGood : public SelfTestBase {};
