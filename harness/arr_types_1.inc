// type list, part 1 of 4 (TYPE(binding) is defined by the including check)
TYPE(arr::Plain<zserio::UInt<1>>)
TYPE(arr::Plain<zserio::UInt<2>>)
TYPE(arr::Plain<zserio::UInt<5>>)
TYPE(arr::Plain<zserio::UInt<7>>)
TYPE(arr::Plain<zserio::UInt8>)
TYPE(arr::Plain<zserio::UInt<13>>)
TYPE(arr::Plain<zserio::UInt16>)
TYPE(arr::Plain<zserio::UInt<17>>)
TYPE(arr::Plain<zserio::UInt<31>>)
TYPE(arr::Plain<zserio::UInt32>)
TYPE(arr::Plain<zserio::UInt<33>>)
TYPE(arr::Plain<zserio::UInt<48>>)
TYPE(arr::Plain<zserio::UInt<61>>)
TYPE(arr::Plain<zserio::UInt<62>>)
TYPE(arr::Plain<zserio::UInt<63>>)
TYPE(arr::Plain<zserio::UInt64>)
