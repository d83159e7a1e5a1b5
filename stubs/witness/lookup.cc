// Instances of the templates that look through elements, for the analysis to follow. Never compiled into anything.
#include "refract/Element.h"
#include "refract/FilterVisitor.h"
#include "refract/Iterate.h"
#include "refract/Query.h"
#include "refract/VisitorUtils.h"

namespace witness
{
    using namespace refract;

    template <typename T>
    struct Lookup {
        static void all(const T& e, const InfoElements& info)
        {
            IsVariableProperty(e);
            HasTypeAttribute(e, "fixed");
            GetDefault<T>(e);
            GetSample<T>(e);
            GetValue<T>()(e);
            FindCollectionMemberValue<T>(info, "key");
        }
    };

    template struct Lookup<StringElement>;
    template struct Lookup<NumberElement>;
    template struct Lookup<BooleanElement>;
    template struct Lookup<ArrayElement>;
    template struct Lookup<EnumElement>;
    template struct Lookup<ObjectElement>;

    void iterate(const IElement& e)
    {
        FilterVisitor filter(query::Element("annotation"));
        Iterate<Recursive> all(filter);
        all(e);
        Iterate<Children> children(filter);
        children(e);
    }
}
