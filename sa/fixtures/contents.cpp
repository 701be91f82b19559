/* Self-test of the contents rules: bad_* must be reported, good_* must not. */
#include "Manifolds/Element.h"
using namespace ROPTLIB;

realdp bad_read_undefined(Element x) { realdp *p = x.ObtainWriteEntireData(); return p[0]; }
realdp good_read_defined(Element x) { realdp *p = x.ObtainWriteEntireData(); p[0] = 1; return p[0]; }
void bad_update_entire(Element *x) { realdp *p = x->ObtainWriteEntireData(); for (integer i = 0; i < x->Getlength(); i++) p[i] += 1; }
void good_update_partial(Element *x) { realdp *p = x->ObtainWritePartialData(); for (integer i = 0; i < x->Getlength(); i++) p[i] += 1; }
void bad_const_hole(Element *x) { Vector b(3); realdp *p = b.ObtainWriteEntireData(); p[0] = 1; p[2] = 3; *x = b; }
void good_const(Element *x) { Vector b(3); realdp *p = b.ObtainWriteEntireData(); p[1] = 2; p[0] = 1; p[2] = 3; *x = b; }
void bad_diag(Element *x, integer n) { realdp *p = x->ObtainWriteEntireData(); for (integer i = 0; i < n; i++) for (integer j = i + 1; j < n; j++) { p[j + i * n] = 1; p[i + j * n] = 1; } }
void good_diag(Element *x, integer n) { realdp *p = x->ObtainWriteEntireData(); for (integer i = 0; i < n; i++) { p[i + n * i] = 0; for (integer j = i + 1; j < n; j++) { p[j + i * n] = 1; p[j * n + i] = 1; } } }
void bad_interleaved(Element *x, integer n) { realdp *p = x->ObtainWriteEntireData(); for (integer i = 0; i < 2 * n; i += 2) p[i] = 1; }
void good_interleaved(Element *x, integer n) { realdp *p = x->ObtainWriteEntireData(); for (integer i = 0; i < n; i++) { p[2 * i] = 1; p[2 * i + 1] = 0; } }
void bad_parts(Element *x, integer n) { realdpcomplex *p = (realdpcomplex *) x->ObtainWriteEntireData(); for (integer i = 0; i < n; i++) p[i].r = 1; }
void good_parts(Element *x, integer n) { realdpcomplex *p = (realdpcomplex *) x->ObtainWriteEntireData(); for (integer i = 0; i < n; i++) { p[i].i = 0; p[i].r = 1; } }
void bad_skip(Element *x, const Element &y, integer n) { const realdp *q = y.ObtainReadData(); realdp *p = x->ObtainWriteEntireData(); for (integer i = 0; i < n; i++) { if (q[i] > 0) p[i] = q[i]; } }
void good_skip(Element *x, const Element &y, integer n) { const realdp *q = y.ObtainReadData(); realdp *p = x->ObtainWriteEntireData(); for (integer i = 0; i < n; i++) { if (q[i] > 0) p[i] = q[i]; else p[i] = 0; } }
