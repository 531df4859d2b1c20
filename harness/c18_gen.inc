// included with TOBJ_NS and C18_FN defined
#include "c18_ns.inc"
#ifdef C18_ALL
namespace allobj
{
template <typename A, typename F>
void visit(AllObj<A>& o, F&& f)
{
    for (size_t i = 0; i < FIELDS; ++i)
    {
        withField(o, i, [&](auto& m) {
            using M = std::decay_t<decltype(m)>;
            if constexpr (is_opt<M>)
            {
                f(std::string_view(fieldNames()[i]), ::c18::OptAcc<M>{m});
            }
            else
            {
                f(std::string_view(fieldNames()[i]), ::c18::PlainAcc<M>{m});
            }
        });
    }
}
} // namespace allobj
#endif

namespace c18
{
namespace N = tobj::TOBJ_NS;
using AL = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
using Refl = zserio::IBasicReflectableData<AL>;
using Exp = E<AL>;

// random values of every field type
struct C18_FN(FieldGen)
{
    vh::Rng& r;

    template <typename T>
    void operator()(T& v)
    {
        if constexpr (std::is_enum_v<T>)
        {
            const auto& values = zserio::EnumTraits<T>::values;
            v = values[r.below(values.size())];
        }
        else if constexpr (zserio::is_bitmask_v<T>)
        {
            using Z = typename T::ZserioType;
            v = T(Z(static_cast<typename Z::ValueType>(r.ubits(sizeof(typename Z::ValueType) * 8))));
        }
        else if constexpr (is_leaf<T>)
        {
            allobj::Fill fill{r};
            fill.utf8 = false;
            fill(v);
        }
        else if constexpr (is_vec<T>)
        {
            v.clear();
            const size_t n = r.below(4);
            for (size_t i = 0; i < n; ++i)
            {
                v.emplace_back();
                (*this)(v.back());
            }
        }
        else
        {
            size_t n = 0;
            visit(v, [&](std::string_view, auto) { ++n; });
            const size_t want = r.below(n);
            size_t i = 0;
            visit(v, [&](std::string_view, auto acc) {
                using V = typename decltype(acc)::Type;
                const bool take = IsVar<T>::value ? i == want : (!decltype(acc)::OPTIONAL || r.flip());
                ++i;
                if (take)
                {
                    V x = V();
                    (*this)(x);
                    acc.set(x);
                }
            });
        }
    }
};


} // namespace c18
