// Instantiates members of the repository's templates which no unit of it may happen to use.
#include "refract/Element.h"
#include "refract/dsd/ElementData.h"

namespace refract
{
    namespace dsd
    {
        template class container_traits<Array, Array::container_type>;
        template class container_traits<Object, Object::container_type>;
        template class container_traits<Extend, Extend::container_type>;
        template class container_traits<Option, Option::container_type>;
        template class container_traits<Select, Select::container_type>;
    }
}
