// type list, part 4 of 4
TYPE(arr::Plain<zserio::Bytes>)
TYPE(arr::Plain<zserio::String>)
TYPE(arr::Plain<zserio::BitBuffer>)
TYPE(arr::Plain<test_object::std_allocator::CreatorEnum>)
TYPE(arr::Plain<test_object::std_allocator::CreatorUnsignedEnum>)
TYPE(arr::Plain<test_object::std_allocator::CreatorBitmask>)
TYPE(arr::Plain<test_object::std_allocator::ReflectableBitmask>)
TYPE(arr::Plain<objs::Inner>)
TYPE(arr::Plain<objs::PObj>)
TYPE(arr::Plain<objs::AObj>)
TYPE(arr::Plain<objs::OObj>)
TYPE(arr::Dyn<int8_t>)
TYPE(arr::Dyn<uint8_t>)
TYPE(arr::Dyn<int16_t>)
TYPE(arr::Dyn<uint16_t>)
TYPE(arr::Dyn<int32_t>)
TYPE(arr::Dyn<uint32_t>)
TYPE(arr::Dyn<int64_t>)
TYPE(arr::Dyn<uint64_t>)
