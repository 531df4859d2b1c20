// Fields of the generated objects for c18.h: define TOBJ_NS before including.
namespace test_object
{
namespace TOBJ_NS
{
using ::c18::OptAcc;
using ::c18::PlainAcc;
using ::c18::VarAcc;

#define C18_PLAIN(field) f(#field, PlainAcc<decltype(o.field)>{o.field})
#define C18_OPT(field) f(#field, OptAcc<decltype(o.field)>{o.field})
#define C18_VAR(field) f(#field, VarAcc<std::decay_t<decltype(o)>, std::decay_t<decltype(o)>::Tag::field>{o})

template <typename F>
void visit(CreatorNested& o, F&& f)
{
    C18_PLAIN(value);
    C18_PLAIN(text);
    C18_PLAIN(externData);
    C18_PLAIN(bytesData);
    C18_PLAIN(creatorEnum);
    C18_PLAIN(creatorBitmask);
}
template <typename F>
void visit(CreatorObject& o, F&& f)
{
    C18_PLAIN(value);
    C18_PLAIN(nested);
    C18_PLAIN(text);
    C18_PLAIN(nestedArray);
    C18_PLAIN(textArray);
    C18_OPT(externArray);
    C18_OPT(bytesArray);
    C18_OPT(optionalBool);
    C18_OPT(optionalNested);
}
template <typename F>
void visit(WalkerNested& o, F&& f)
{
    C18_PLAIN(text);
}
template <typename F>
void visit(WalkerUnion& o, F&& f)
{
    C18_VAR(value);
    C18_VAR(text);
    C18_VAR(nestedArray);
}
template <typename F>
void visit(WalkerChoice& o, F&& f)
{
    C18_VAR(value8);
    C18_VAR(value16);
    C18_VAR(value32);
    C18_VAR(value64);
}
template <typename F>
void visit(WalkerObject& o, F&& f)
{
    C18_PLAIN(identifier);
    C18_OPT(nested);
    C18_PLAIN(text);
    C18_PLAIN(unionArray);
    C18_OPT(optionalUnionArray);
    C18_PLAIN(choiceSelector);
    C18_PLAIN(choiceField);
}
template <typename F>
void visit(ReflectableNested& o, F&& f)
{
    C18_PLAIN(value);
}
template <typename F>
void visit(ReflectableChoice& o, F&& f)
{
    C18_VAR(valueStr);
    C18_VAR(value32);
}
template <typename F>
void visit(ReflectableUnion& o, F&& f)
{
    C18_VAR(value32);
    C18_VAR(valueStr);
}
template <typename F>
void visit(ReflectableObject& o, F&& f)
{
    C18_PLAIN(stringField);
    C18_PLAIN(reflectableNested);
    C18_PLAIN(reflectableEnum);
    C18_PLAIN(reflectableChoice);
    C18_PLAIN(reflectableUnion);
}
template <typename F>
void visit(ReflectableUtilChoice& o, F&& f)
{
    C18_VAR(array);
}
template <typename F>
void visit(ReflectableUtilObject& o, F&& f)
{
    C18_PLAIN(choiceParam);
    C18_PLAIN(reflectableUtilChoice);
}
template <typename F>
void visit(ReflectableUtilUnion& o, F&& f)
{
    C18_VAR(reflectableUtilEnum);
    C18_VAR(reflectableUtilBitmask);
    C18_VAR(reflectableUtilObject);
}
template <typename F>
void visit(DebugStringObject& o, F&& f)
{
    C18_PLAIN(text);
}
template <typename F>
void visit(DebugStringParamObject& o, F&& f)
{
    C18_PLAIN(text);
}

} // namespace TOBJ_NS
} // namespace test_object

namespace c18
{
#define C18_ISVAR(T) \
    template <> \
    struct IsVar<::test_object::TOBJ_NS::T> : std::true_type \
    {}
C18_ISVAR(WalkerUnion);
C18_ISVAR(WalkerChoice);
C18_ISVAR(ReflectableChoice);
C18_ISVAR(ReflectableUnion);
C18_ISVAR(ReflectableUtilChoice);
C18_ISVAR(ReflectableUtilUnion);
#undef C18_ISVAR
} // namespace c18

namespace c18
{
inline std::vector<std::string> params(const ::test_object::TOBJ_NS::CreatorNested*)
{
    return {"param"};
}
inline std::vector<std::string> params(const ::test_object::TOBJ_NS::DebugStringParamObject*)
{
    return {"param"};
}
inline std::vector<std::string> params(const ::test_object::TOBJ_NS::ReflectableChoice*)
{
    return {"param"};
}
inline std::vector<std::string> params(const ::test_object::TOBJ_NS::ReflectableUtilChoice*)
{
    return {"param"};
}
inline std::vector<std::string> params(const ::test_object::TOBJ_NS::ReflectableNested*)
{
    return {"dummyParam", "stringParam"};
}
inline std::vector<std::string> params(const ::test_object::TOBJ_NS::WalkerChoice*)
{
    return {"selector"};
}
} // namespace c18
