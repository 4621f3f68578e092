#!/usr/bin/env python3
"""known_findings.json: genuine defects, recorded or repaired. Fixed entries suppress nothing."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOOP = 'a chain of $ref at the very root that ends in a loop of pointers within one document overflows the stack in resolveThenPopulateSchema ' \
       '(the unit test CircularReferencesFromRootReference pins the crash, upstream issue #200): '
KNOWN = [
    ('C12', {'draft': d, 'schema': s}, LOOP + json.dumps(s)) for d, s in [
        (7, {'$ref': '#/foo', 'foo': {'$ref': '#/bar'}, 'bar': {'$ref': '#/foo'}}),
        (4, {'$ref': '#/definitions/a', 'definitions': {'a': {'$ref': '#/definitions/a'}}}),
    ]] + [
    ('C26', {'draft': d, 'schema': s, 'remote': {}, 'lib': 'rapidjson', 'weak': False, 'part': 'patterns', 'config': c},
     'Boost.Regex has no \\uXXXX escape, so a pattern that uses one matches other strings than with std::regex (%s)' % c)
    for c in ('Boost.Regex', 'bundle, Boost.Regex, exceptions off')
    for d, s in [(4, {'patternProperties': {'\\u0061': {'type': 'string'}}, 'additionalProperties': {'type': 'integer'}}), (7, {'pattern': '\\u0061'})]] + [
    ('C26', {'draft': 7, 'schema': {'pattern': '.'}, 'remote': {}, 'lib': 'rapidjson', 'weak': False, 'part': 'formfeed', 'config': c},
     'Boost.Regex takes a form feed for a line terminator, which . does not match (%s)' % c) for c in ('Boost.Regex', 'bundle, Boost.Regex, exceptions off')]
FIXED = {  # commit subject -> property, what failed
    'keep property names, dependencies and patterns with embedded NULs whole': ('C02', 'names with embedded NULs were cut at the NUL in properties, required, dependencies and patterns'),
    'multipleOf with an integral divisor': ('C01', 'multipleOf 2 accepted 4.5 (the value was truncated), and constrained strings'),
    'a number with a zero fractional part': ('C01', '1e300 was not an integer; 1.0 was not one next to other numbers'),
    'report an error when a false schema': ('C08', 'a false schema or failing propertyNames gave invalid with an empty results object'),
    'do not report errors from schema types': ('C08', 'draft 3 union types left errors in the results of a valid document'),
    'check all properties matched by patternProperties': ('C08', 'collecting errors stopped after the first failing patternProperties match'),
    'apply additionalItems only': ('C08', 'additionalItems was applied to listed items when collecting errors'),
    'uniqueItems and additionalProperties must not throw': ('C17', 'weak validation threw on loosely typed containers'),
    'accept an empty schema as a draft 3 type': ('C04', 'draft 3 type: {} was rejected'),
    'a value far smaller than the divisor': ('C01', '1e-20 passed multipleOf 1'),
    'resolve references against the schema resource': ('C10', 'references inside embedded resources, plain names, and member order changed verdicts'),
    'decode percent-encoding before': ('C13', '#/a%7E1b did not designate the member "a/b"; malformed escapes and indices were accepted'),
    'resolve references against URIs with an authority': ('C14', 'relative references lost dot segments, queries or authorities'),
    'reject divisors': ('C12', 'multipleOf 0 was accepted and divided by zero'),
    'times with very long fractions': ('C05', 'a time with 100000 fraction digits crashed the process (stack exhausted in std::regex)'),
    'dates have four-digit years': ('C05', 'dates with five-digit years passed, longer ones threw'),
    'compare integers beyond 2^53 exactly': ('C06', '9007199254740993 equalled 9007199254740992'),
    'do not truncate or wrap integers': ('C16', 'unsigned and 64-bit integers were truncated by several adapters'),
    'read 64-bit integers, and only integers': ('C16', 'QtJson integers were truncated to 32 bits and 1.5 read as an integer'),
    'default-constructed adapters': ('C16', 'default-constructed adapters did not behave as empty objects'),
    'keep strings with embedded NULs whole in the Boost.JSON': ('C16', 'Boost.JSON strings were cut at a NUL'),
    'reading a double must not convert': ('C16', 'PicoJson getDouble changed the type of an integer held by the document'),
    'report failure instead of throwing when a YAML scalar': ('C17', 'tentative reads of YAML scalars threw'),
    'Poco booleans are not numbers': ('C16', 'Poco true was a number, and 2^63 threw'),
    'freezing a PocoJson value': ('C06', 'a frozen Poco value changed with the document'),
    'Boost.JSON integers that int64_t cannot hold': ('C16', 'uint64 values were reported as integers but could not be read'),
    'read integers from strings independently': ('C24', 'asInteger of "12abc" was 12, and depended on the locale'),
    'convert property names by their content': ('C17', 'under weak types a property name was no string to propertyNames'),
    '2^63 is not an integer': ('C17', '2^63 was said to be readable as int64_t'),
    'failing to read a YAML scalar': ('C16', 'a failing strict read of a YAML scalar overwrote its output'),
    'JSON Pointer array indices are digits only': ('C13', 'indices with spaces or signs were accepted'),
    'collect the errors of every allOf': ('C09', 'only the first failing allOf subschema was reported when results were requested'),
    'do not allocate in the RapidJSON assertion': ('C21', 'an allocation failure in a constructor that must not throw terminated the program'),
    'report allocation failure from CustomAllocator': ('C21', 'a null pointer from the allocation function was written through'),
    'do not leak an enum value': ('C21', 'a frozen enum value leaked when storing it failed'),
    'do not hold an iterator into the regex cache': ('C18', 'an iterator into the regex cache was used after a nested validation had grown the cache'),
    'let a populated schema be moved': ('C20', 'a populated schema that refers to its own identifier kept pointers to the schema object it was moved from'),
    'do not throw when RapidJSON finds an error near': ('C25', 'the excerpt of a malformed file was taken from before its start, so an error near the start threw std::out_of_range'),
    'report a file nlohmann::json cannot parse': ('C25', 'loadDocument threw for a malformed file instead of returning false'),
    'report a number PicoJSON cannot hold': ('C25', 'loadDocument threw std::overflow_error for 1e999 instead of returning false'),
    'include the number parser in bundled headers': ('C26', 'bundle.sh left out double_parser.hpp, so no bundled header compiled'),
    'let the RapidJSON adapter be used with exceptions disabled': ('C26', 'the RapidJSON adapter did not compile with VALIJSON_USE_EXCEPTIONS=0'),
    'give patterns one meaning': ('C26', 'with Boost.Regex . matched line terminators, and ^ and $ matched at every line'),
    'detect circular references that span documents': ('C11', 'a root reference to a loop across documents overflowed the stack; "#" beneath one was refused'),
}
def main():
    log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout.splitlines()]
    out = [{'property': p, 'status': 'known', 'what': w, 'case': c} for p, c, w in KNOWN]
    for h, s in log:
        if not s.startswith('fix: '):
            continue
        m = [v for k, v in FIXED.items() if s[5:].startswith(k) or k in s]
        if not m:
            print('unmapped', h, s); continue
        out.append({'property': m[0][0], 'status': 'fixed', 'commit': h, 'what': m[0][1], 'line': 'fixed: property=%s %s %s' % (m[0][0], h, m[0][1])})
    json.dump({'findings': out}, open(H + '/known_findings.json', 'w'), indent=1); open(H + '/known_findings.json', 'a').write('\n')
    print(len(out))
main()
