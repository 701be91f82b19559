#include "Manifolds/Manifold.h"
namespace ROPTLIB{
    class FxHiddenManifold : public Manifold{
    public:
        virtual Variable RandominManifold(void) const;
        virtual realdp Beta(const Variable &x, Vector &etax) const;   /* const missing: hides Manifold::Beta */
    };
}
