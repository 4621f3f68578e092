"""Bundled headers of every adapter, and empty stand-ins for the separate ones."""
import os, subprocess, sys
repo, tmp = sys.argv[1:3]
os.makedirs(tmp + '/bundle')
for d, _, fs in os.walk(repo + '/include/valijson'):
    rel = os.path.relpath(d, repo + '/include')
    os.makedirs(os.path.join(tmp, 'stub', rel), exist_ok=True)
    for f in fs:
        open(os.path.join(tmp, 'stub', rel, f), 'w').write('#pragma once\n')
for a in 'boost_json jsoncpp nlohmann_json picojson poco_json property_tree qtjson qvariant rapidjson yaml_cpp'.split():
    r = subprocess.run(['bash', './bundle.sh', a], cwd=repo, capture_output=True)
    if r.returncode:
        sys.exit('bundle.sh %s: %s' % (a, r.stderr.decode()))
    open('%s/bundle/%s.hpp' % (tmp, a), 'wb').write(r.stdout)
# Boost.JSON is compiled into the program once, by the unit with separate headers.
os.makedirs(tmp + '/stub/boost/json', exist_ok=True)
open(tmp + '/stub/boost/json/src.hpp', 'w').write('#include <boost/json.hpp>\n')
