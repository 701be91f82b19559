#include "Manifolds/Element.h"
using namespace ROPTLIB;
static void tail(integer n, realdp *A, realdp *W, realdp *work, integer lwork) { integer info; syev_(GLOBAL::V, GLOBAL::L, &n, A, &n, W, work, &lwork, &info); }
void good_query(integer n)
{
    Element A(n, n), w(n); A.SetToZeros();
    realdp *Aptr = A.ObtainWritePartialData(), *wptr = w.ObtainWriteEntireData();
    integer info, lwork = -1; realdp opt;
    syev_(GLOBAL::V, GLOBAL::L, &n, Aptr, &n, wptr, &opt, &lwork, &info);
    lwork = static_cast<integer> (opt);
    realdp *work = new realdp[lwork];
    syev_(GLOBAL::V, GLOBAL::L, &n, Aptr, &n, wptr, work, &lwork, &info);
    delete[] work;
}
void good_helper(integer n)
{
    Element A(n, n), w(n); A.SetToZeros();
    realdp *Aptr = A.ObtainWritePartialData(), *wptr = w.ObtainWriteEntireData();
    integer info, q = -1; realdp opt;
    syev_(GLOBAL::V, GLOBAL::L, &n, Aptr, &n, wptr, &opt, &q, &info);
    realdp *work = new realdp[(integer) opt];
    tail(n, Aptr, wptr, work, (integer) opt);
    delete[] work;
}
void bad_order(integer n)
{
    Element A(n, n), w(n); A.SetToZeros();
    realdp *Aptr = A.ObtainWritePartialData(), *wptr = w.ObtainWriteEntireData();
    integer info, lwork = -1; realdp opt;
    syev_(GLOBAL::V, GLOBAL::L, &n, Aptr, &n, wptr, &opt, &lwork, &info);
    realdp *work = new realdp[lwork];
    lwork = static_cast<integer> (opt);
    syev_(GLOBAL::V, GLOBAL::L, &n, Aptr, &n, wptr, work, &lwork, &info);
    delete[] work;
}
void bad_job(integer n)
{
    Element A(n, n), w(n); A.SetToZeros();
    realdp *Aptr = A.ObtainWritePartialData(), *wptr = w.ObtainWriteEntireData();
    integer info, lwork = -1; realdp opt;
    syev_(GLOBAL::N, GLOBAL::L, &n, Aptr, &n, wptr, &opt, &lwork, &info);
    lwork = static_cast<integer> (opt);
    realdp *work = new realdp[lwork];
    syev_(GLOBAL::V, GLOBAL::L, &n, Aptr, &n, wptr, work, &lwork, &info);
    delete[] work;
}
void bad_shape(integer m, integer n)
{
    Element A(m, n); A.SetToZeros();
    Element P(m);
    realdp *Aptr = A.ObtainWritePartialData();
    integer *Pptr = (integer *) P.ObtainWriteEntireData();
    integer info;
    getrf_(&n, &n, Aptr, &n, Pptr, &info);
}
