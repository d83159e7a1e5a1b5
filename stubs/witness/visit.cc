// Instances of the dispatch templates, for the analysis to follow: one functor per kind of answer, each with an
// overload of its own for each kind of element and none with a body. Never compiled into anything.
#include "refract/Element.h"
#include "refract/ElementUtils.h"
#include "refract/TypeQueryVisitor.h"
#include "refract/Utils.h"
#include "refract/Visitor.h"

namespace witness
{
    using namespace refract;

    template <typename R>
    struct Probe {
        R operator()(const NullElement&);
        R operator()(const HolderElement&);
        R operator()(const StringElement&);
        R operator()(const NumberElement&);
        R operator()(const BooleanElement&);
        R operator()(const ArrayElement&);
        R operator()(const EnumElement&);
        R operator()(const MemberElement&);
        R operator()(const ObjectElement&);
        R operator()(const RefElement&);
        R operator()(const ExtendElement&);
        R operator()(const OptionElement&);
        R operator()(const SelectElement&);
    };

    struct Functor : Probe<void> {
        using Probe<void>::operator();
        void operator()(const IElement&);
    };

    int value(const IElement& e)
    {
        return refract::visit(e, Probe<int>{});
    }

    const int& reference(const IElement& e)
    {
        return refract::visit(e, Probe<const int&>{});
    }

    void nothing(const IElement& e)
    {
        refract::visit(e, Probe<void>{});
    }

    void functor(const IElement& e, Functor& f)
    {
        Visit(f, e);
        VisitBy(e, f);
    }

    template <typename E>
    void casts(IElement* e, const IElement* c, const E& k, Functor& f)
    {
        TypeQueryVisitor::as<E>(e);
        TypeQueryVisitor::as<const E>(c);
        refract::get<E>(e);
        refract::get<const E>(c);
        VisitBy(k, f);
        Visit(f, k);
    }

    void all(IElement* e, const IElement* c, Functor& f)
    {
        casts(e, c, NullElement{}, f);
        casts(e, c, HolderElement{}, f);
        casts(e, c, StringElement{}, f);
        casts(e, c, NumberElement{}, f);
        casts(e, c, BooleanElement{}, f);
        casts(e, c, ArrayElement{}, f);
        casts(e, c, EnumElement{}, f);
        casts(e, c, MemberElement{}, f);
        casts(e, c, ObjectElement{}, f);
        casts(e, c, RefElement{}, f);
        casts(e, c, ExtendElement{}, f);
        casts(e, c, OptionElement{}, f);
        casts(e, c, SelectElement{}, f);
    }
}
