/* Self-test of the copy-on-write rules: bad_* must be reported, good_* must not. */
#include "Manifolds/Element.h"
using namespace ROPTLIB;

void bad_const_write(const Element &x) { realdp *p = const_cast<realdp *>(x.ObtainReadData()); p[0] = 1; }
void good_const_copy(const Element &x, Element *r) { *r = x; realdp *p = r->ObtainWritePartialData(); p[0] = 1; }
void bad_copy_between(Element x, Element *r) { realdp *p = x.ObtainWritePartialData(); *r = x; p[0] = 1; }
void good_copy_after(Element x, Element *r) { realdp *p = x.ObtainWritePartialData(); p[0] = 1; *r = x; }
void bad_component(const Element &x, Element *r) { *r = x; r->GetElement(0) = x.GetElement(1); }
void good_component(const Element &x, Element *r) { *r = x; r->CopyOnWrite(); r->GetElement(0) = x.GetElement(1); }
void bad_component_branch(const Element &x, Element *r, bool b) { if (b) r->NewMemoryOnWrite(); r->GetElement(0) = x.GetElement(1); }
void bad_attach(const Element &x, const Element &e) { Vector t(e); x.AddToFields("E", t); }
void good_attach(const Element &x, const Element &e) { Vector t(e); t.CopyOnWrite(); x.AddToFields("E", t); }
void good_alias(const Element &x, Element *r) { *r = x; Element &out = *r; out.CopyOnWrite(); r->GetElement(0) = x.GetElement(1); }
void bad_alias(const Element &x, Element *r) { Element t(x); Element &out = t; *r = x; out.CopyOnWrite(); r->GetElement(0) = x.GetElement(1); }
static void put_component(const Element &x, Element *o) { o->GetElement(0) = x.GetElement(1); }
static void make_owned(Element *o) { o->CopyOnWrite(); }
void good_helper(const Element &x, Element *r) { *r = x; r->CopyOnWrite(); put_component(x, r); put_component(x, r); }
void good_acquirer(const Element &x, Element *r) { *r = x; make_owned(r); put_component(x, r); }
void bad_helper(const Element &x, Element *r) { *r = x; put_component(x, r); }
void bad_helper_branch(const Element &x, Element *r, bool b) { *r = x; if (b) make_owned(r); put_component(x, r); }
