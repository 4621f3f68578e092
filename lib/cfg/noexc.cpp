// The library with -fno-exceptions. Texts in, texts out.
#include <string>
#include <vector>
#include <memory>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>
using namespace valijson;
static std::vector<std::unique_ptr<rapidjson::Document>> docs;
static void parse(rapidjson::Document &d, const std::string &t) { d.Parse<rapidjson::kParseFullPrecisionFlag>(t.c_str(), t.size()); }
void noexcDocs(const std::vector<std::string> &l) { docs.clear(); for (auto &t : l) { docs.emplace_back(new rapidjson::Document()); parse(*docs.back(), t); } }
std::vector<std::string> noexcRun(int draft, const std::string &schema, bool weak) {
    rapidjson::Document sd; parse(sd, schema); Schema s;
    SchemaParser p(draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7);
    adapters::RapidJsonAdapter a(sd); p.populateSchema(a, s);
    std::vector<std::string> out; Validator v(weak ? Validator::kWeakTypes : Validator::kStrongTypes);
    for (auto &d : docs) {
        adapters::RapidJsonAdapter x(*d); ValidationResults r;
        std::string o = v.validate(s, x, nullptr) ? "valid" : "invalid"; o += v.validate(s, x, &r) ? " valid" : " invalid";
        for (auto &e : r) { o += "\n" + e.jsonPointer + " "; for (auto &c : e.context) o += c; o += " " + e.description; }
        out.push_back(o);
    }
    return out;
}
