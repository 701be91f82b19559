/* Self-test of the defaults rules: DefaultsGood* must not be reported, DefaultsBad<Rule>* by the rule named. */
#include "Solvers/SolversSM.h"
using namespace ROPTLIB;

struct DefaultsBase {
	realdp Tolerance;
	integer LengthSY;
	bool useRand;
	virtual void SetDefaultParams(void) { Tolerance = static_cast<realdp> (1) / 1000000; LengthSY = 4; useRand = LengthSY > 5; }
	virtual void Initialization(void) { SetDefaultParams(); }
	virtual void CheckParams(void)
	{
		char YES[] = "YES";
		char NO[] = "NO";
		const char *s = (Tolerance > 0) ? YES : NO;
		printf("Tolerance:%15g[%s]\n", Tolerance, s);
		if (LengthSY >= 0)
			s = YES;
		else
			s = NO;
		printf("LengthSY:%15d[%s]\n", LengthSY, s);
	}
};
struct DefaultsGood : public DefaultsBase { DefaultsGood(void) { Initialization(); } };
struct DefaultsGoodOrder : public DefaultsBase {
	DefaultsGoodOrder(integer k) { useRand = k > 3; Prepare(); LengthSY += 2; }
	void Prepare(void) { DefaultsBase::SetDefaultParams(); LengthSY = 2; }
};
static realdp DefaultsPower(integer k) { realdp r = 1; if (k < 0) return 1 / DefaultsPower(6); for (integer i = 0; i < k; i++) r *= 10; return r; }
static void DefaultsBoth(integer &a, bool *b, integer v, bool w) { a = v; *b = w; }
struct DefaultsGoodHelpers : public DefaultsBase {
	static realdp Small(void) { const realdp r = 1e-3; return r * r; }
	DefaultsGoodHelpers(void) { DefaultsBoth(LengthSY, &useRand, 4, false); Tolerance = Small(); if (LengthSY > 7) Tolerance = DefaultsPower(-6); }
};
/* set before the defaults are, lost */
struct DefaultsBadDefaultLate : public DefaultsBase {
	DefaultsBadDefaultLate(void) { Initialization(); }
	virtual void SetDefaultParams(void) { DefaultsBase::SetDefaultParams(); LengthSY = 2; }
};
/* on one path only */
struct DefaultsBadDefaultPath : public DefaultsBase { DefaultsBadDefaultPath(integer k) { Initialization(); if (k > 3) useRand = true; } };
/* refuses its own default */
struct DefaultsBadReport : public DefaultsBase {
	DefaultsBadReport(void) { Initialization(); }
	virtual void CheckParams(void)
	{
		char YES[] = "YES";
		char NO[] = "NO";
		const char *s = (LengthSY > 4) ? YES : NO;
		printf("LengthSY:%15d[%s]\n", LengthSY, s);
	}
};
/* the verdict of the parameter before */
struct DefaultsBadDecided : public DefaultsBase {
	DefaultsBadDecided(void) { Initialization(); }
	virtual void CheckParams(void)
	{
		char YES[] = "YES";
		char NO[] = "NO";
		const char *s = (Tolerance > 0) ? YES : NO;
		printf("Tolerance:%15g[%s]\n", Tolerance, s);
		printf("LengthSY:%15d[%s]\n", LengthSY, s);
	}
};
