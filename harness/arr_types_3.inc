// type list, part 3 of 4
TYPE(arr::Plain<zserio::Bool>)
TYPE(arr::Plain<zserio::VarInt16>)
TYPE(arr::Plain<zserio::VarInt32>)
TYPE(arr::Plain<zserio::VarInt64>)
TYPE(arr::Plain<zserio::VarInt>)
TYPE(arr::Plain<zserio::VarUInt16>)
TYPE(arr::Plain<zserio::VarUInt32>)
TYPE(arr::Plain<zserio::VarUInt64>)
TYPE(arr::Plain<zserio::VarUInt>)
TYPE(arr::Plain<zserio::VarSize>)
TYPE(arr::Plain<zserio::Float16>)
TYPE(arr::Plain<zserio::Float32>)
TYPE(arr::Plain<zserio::Float64>)
