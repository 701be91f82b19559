/* Self-test of the derived-data rules: bad_* must be reported, good_* must not. */
#include "Manifolds/Element.h"
using namespace ROPTLIB;

void bad_derive_then_write(Element x) { realdp *p = x.ObtainWritePartialData(); x.QRDecom(); p[0] = 1; }
void good_write_then_derive(Element x) { realdp *p = x.ObtainWritePartialData(); p[0] = 1; x.QRDecom(); }
void good_reacquired(Element x) { realdp *p = x.ObtainWritePartialData(); x.QRDecom(); p = x.ObtainWritePartialData(); p[0] = 1; }
void bad_attach_then_write(Element *x, const Element &y) { realdp *p = x->ObtainWriteEntireData(); Vector t(2); t.SetToZeros(); x->AddToFields("T", t); p[1] = 0; }
void bad_other_operand(const Variable &x, const Vector &etax) { Vector t = x + etax; x.AddToFields("T", t); }
void bad_other_pointer(const Variable &x, const Vector &etax) { Vector t(1); realdp *p = t.ObtainWriteEntireData(); p[0] = x.DotProduct(etax); x.AddToFields("T", t); }
void good_own(const Variable &x, const Vector &etax, Vector *result) { Vector t = x + x; x.AddToFields("T", t); t = t + etax; *result = t; }
void bad_in_place(const Variable &x, Vector *result) { x.Field("T").ScalarTimesThis(2); *result = x.Field("T"); }
void bad_in_place_ref(const Variable &x, Vector *result) { Vector &t = x.Field("T"); t.ScalarTimesThis(2); *result = t; }
void good_copy_first(const Variable &x, Vector *result) { Vector t = x.Field("T"); t.ScalarTimesThis(2); *result = 2 * x.Field("T"); }
