// type list, part 2 of 4 (TYPE(binding) is defined by the including check)
TYPE(arr::Plain<zserio::Int<1>>)
TYPE(arr::Plain<zserio::Int<2>>)
TYPE(arr::Plain<zserio::Int<5>>)
TYPE(arr::Plain<zserio::Int<7>>)
TYPE(arr::Plain<zserio::Int8>)
TYPE(arr::Plain<zserio::Int<13>>)
TYPE(arr::Plain<zserio::Int16>)
TYPE(arr::Plain<zserio::Int<17>>)
TYPE(arr::Plain<zserio::Int<31>>)
TYPE(arr::Plain<zserio::Int32>)
TYPE(arr::Plain<zserio::Int<33>>)
TYPE(arr::Plain<zserio::Int<48>>)
TYPE(arr::Plain<zserio::Int<61>>)
TYPE(arr::Plain<zserio::Int<62>>)
TYPE(arr::Plain<zserio::Int<63>>)
TYPE(arr::Plain<zserio::Int64>)
