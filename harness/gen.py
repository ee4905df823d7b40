#!/usr/bin/env python3
"""Generate the two configured headers from the current working tree (only when they change)."""
import os, re, sys
repo, out = sys.argv[1:3]
p = repo + "/pairinteraction/"
def put(name, text):
    f = os.path.join(out, name)
    try:
        if open(f).read() == text:
            return
    except OSError:
        pass
    open(f, "w").write(text)
sql = open(p + "databases/quantum_defects.sql").read()
put("EmbeddedDatabase.hpp",
    open(p + "EmbeddedDatabase.hpp.in").read().replace("@QUANTUM_DEFECT_DATABASE_CONTENT@", sql))
cm = open(repo + "/CMakeLists.txt").read()
def var(n, d):
    m = re.search(r'set\(%s "([^"]*)"' % n, cm)
    return m.group(1) if m else d
t = open(p + "version.hpp.in").read()
for k, d in (("SOFTWARE", "v0.0.0"), ("SETTINGS", "v18"), ("CACHE", "v18")):
    t = t.replace("@VERSION_%s@" % k, var("VERSION_" + k, d))
put("version.hpp", t)
if not os.path.exists(out + "/stamp"):
    open(out + "/stamp", "w").close()
