// text of everything an introspectable shows; A is the allocator
using IHandle = zserio::IBasicIntrospectableViewConstPtr<A>;
// what an introspectable shows
inline void show(const IHandle& h, std::string& o, int depth)
{
    if (!h)
    {
        o += "null";
        return;
    }
    if (depth > 5)
    {
        return;
    }
    const auto& t = h->getTypeInfo();
    if (h->isArray())
    {
        o += "[";
        for (size_t i = 0; i < h->size() && i < 6; ++i)
        {
            show(h->at(i), o, depth + 1);
            o += ",";
        }
        o += "]";
        return;
    }
    if (zserio::TypeInfoUtil::isCompound(t.getCppType()))
    {
        o += vh::str(t.getSchemaName(), "{");
        const bool choice = zserio::TypeInfoUtil::hasChoice(t.getCppType());
        const std::string chosen = choice ? std::string(h->getChoice()) : std::string();
        for (const auto& f : t.getFields())
        {
            if (!choice || chosen == f.schemaName)
            {
                o += vh::str(f.schemaName, "=");
                show(h->find(f.schemaName), o, depth + 1);
            }
        }
        o += "}";
        return;
    }
    try
    {
        const auto s = h->toString(A());
        o += std::string(s.data(), s.size());
    }
    catch (const zserio::CppRuntimeException& e)
    {
        o += e.what();
    }
}
inline std::string shown(const IHandle& h)
{
    std::string o;
    show(h, o, 0);
    return o;
}
