// C26: operations executed by many threads at once in a fresh process, under ThreadSanitizer
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "vh.h"

namespace c26
{

// gives the text of its result; may be called by any number of threads at the same time
struct Op
{
    std::string name;
    std::function<std::string()> f;
};
struct Plan
{
    std::vector<Op> ops;
    std::vector<std::shared_ptr<void>> keep; // what the operations share
    void add(std::string name, std::function<std::string()> f)
    {
        ops.push_back({std::move(name), std::move(f)});
    }
    template <typename T, typename... ARGS>
    std::shared_ptr<T> own(ARGS&&... args)
    {
        auto p = std::make_shared<T>(std::forward<ARGS>(args)...);
        keep.push_back(p);
        return p;
    }
};

// ops of an object of one of the generated types, of the runtime alone
void objectOps_std(Plan& p, vh::Rng& r, bool warm, uint64_t type);
void objectOps_ppmr(Plan& p, vh::Rng& r, bool warm, uint64_t type);
void typeInfoOps_std(Plan& p, vh::Rng& r, bool warm, uint64_t type);
void typeInfoOps_ppmr(Plan& p, vh::Rng& r, bool warm, uint64_t type);
void runtimeOps(Plan& p, vh::Rng& r, bool warm, uint64_t type);

} // namespace c26
