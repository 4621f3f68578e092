// Type-erased access to every bundled adapter, one translation unit each
// (lib/ad/*.cpp). Documents are built from J through the library's own API,
// never through valijson.
#pragma once
#include "mj.hpp"
#include <functional>
#include <memory>
#include <valijson/internal/adapter.hpp>
#include <valijson/internal/frozen_value.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>

// Set by fault-injecting explorers: called around what the harness itself does inside a callback.
inline void (*harnessWork)(bool) = nullptr;
struct HarnessWork { HarnessWork() { if (harnessWork) harnessWork(true); } ~HarnessWork() { if (harnessWork) harnessWork(false); } };
struct Handle {
    virtual ~Handle() {}
    virtual const valijson::adapters::Adapter &ad() const = 0;  // adapter over the whole document
    virtual J native() const = 0;                               // read back through the library
    virtual std::string walk() const = 0;                       // typed interface agrees with native(); "" or an error
    virtual std::string weak() const = 0;                       // maybe/as pairs agree with a model of the conversions; "" or an error
    virtual void populate(valijson::SchemaParser &, valijson::Schema &) const = 0;
    // as above with fetch/free callbacks serving these documents (URI to document), through the same library;
    // freed documents are overwritten before they are destroyed. Returns the number of fetches.
    virtual int populateRemote(valijson::SchemaParser &, valijson::Schema &, const std::vector<std::pair<std::string, J>> &) const = 0;
    virtual bool validate(valijson::Validator &, const valijson::Schema &, valijson::ValidationResults *) const = 0;
    virtual void scramble() = 0;                                // overwrite the document in place
};
struct AdLib {
    std::string name;
    bool typed = true;                                          // the library keeps JSON types
    std::function<bool(const J &)> can;                         // the library can hold this value
    std::function<std::unique_ptr<Handle>(const J &)> build;
    std::function<std::unique_ptr<Handle>(uint64_t)> buildU64;  // may be empty
    std::function<std::string()> defaults;                      // default-constructed adapter
};
std::vector<AdLib> &adLibs();
struct AdReg { AdReg(AdLib l) { adLibs().push_back(std::move(l)); } };
inline const AdLib &adLib(const std::string &n) {
    for (auto &l : adLibs()) if (l.name == n) return l;
    throw std::runtime_error("no adapter " + n);
}
