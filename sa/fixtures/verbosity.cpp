/* Small solvers whose results do or do not depend on the output level; analysed together with the library, never compiled into it. */
#include <cstdio>
extern double genrandreal(void);

#define SOLVER_HEAD(C) \
class C{ public: \
	int Verbose, OutputGap, Max; \
	int iter, nf, length; double x, f, step; double series[10]; bool stop; \
	double eval(double a) { nf++; return a * a; }; \
	void Print(void) { printf("%d %g\n", iter, f); }; \
	void Run(void); bool Stopped(void); };

SOLVER_HEAD(VerbTestGood)
bool VerbTestGood::Stopped(void) { return f < 1e-6; }
void VerbTestGood::Run(void)
{
	const bool out = Verbose >= 2;
	iter = 0; length = 0;
	while (iter < Max && !Stopped())
	{
		f = eval(x);
		x -= step * x;
		iter++;
		if (out)
		{
			if (iter % OutputGap == 0)
				Print();
			series[iter] = f;
			length = iter + 1;
		}
		const char *tag = "";
		if (Verbose > 1)
			tag = "long";
		if (Verbose > 0)
			printf("%s\n", tag);
	}
}

SOLVER_HEAD(VerbTestWrite)
bool VerbTestWrite::Stopped(void) { return f < 1e-6; }
void VerbTestWrite::Run(void)
{
	while (iter < Max && !Stopped())
	{
		if (Verbose >= 2)
		{
			f = eval(x);
			Print();
		}
		x -= step * x;
		iter++;
	}
}

SOLVER_HEAD(VerbTestBreak)
bool VerbTestBreak::Stopped(void) { return f < 1e-6; }
void VerbTestBreak::Run(void)
{
	while (iter < Max)
	{
		f = eval(x);
		if (Stopped() && Verbose > 0)
			break;
		x -= step * x;
		iter++;
	}
}

SOLVER_HEAD(VerbTestCall)
bool VerbTestCall::Stopped(void) { return f < 1e-6; }
void VerbTestCall::Run(void)
{
	while (iter < Max && !Stopped())
	{
		f = eval(x);
		x -= step * x;
		if (iter % OutputGap == 0)
			printf("%g\n", eval(x));
		iter++;
	}
}

SOLVER_HEAD(VerbTestReturn)
bool VerbTestReturn::Stopped(void) { if (Verbose > 1) return true; return f < 1e-6; }
void VerbTestReturn::Run(void)
{
	while (iter < Max && !Stopped())
	{
		f = eval(x);
		iter++;
	}
}

SOLVER_HEAD(VerbTestLocal)
bool VerbTestLocal::Stopped(void) { return f < 1e-6; }
void VerbTestLocal::Run(void)
{
	double t = step;
	while (iter < Max && !Stopped())
	{
		f = eval(x);
		if (Verbose > 1)
		{
			t = step / 2;
			printf("%g\n", t);
		}
		x -= t * x;
		iter++;
	}
}

SOLVER_HEAD(VerbTestValue)
bool VerbTestValue::Stopped(void) { return f < 1e-6; }
void VerbTestValue::Run(void)
{
	while (iter < Max && !Stopped())
	{
		f = eval(x);
		step = 1.0 / OutputGap;
		x -= step * x;
		iter++;
	}
}

SOLVER_HEAD(VerbTestRandom)
bool VerbTestRandom::Stopped(void) { return f < 1e-6; }
void VerbTestRandom::Run(void)
{
	while (iter < Max && !Stopped())
	{
		f = eval(x);
		x -= genrandreal() * x;
		if (Verbose > 1)
			printf("%g\n", genrandreal());
		iter++;
	}
}
