#!/usr/bin/env python3
# regenerate the entry table of lib.rs from the harness modules (development aid)
import re, glob, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src")
mods = sorted(os.path.basename(f)[:-3] for f in glob.glob(d + "/h_*.rs"))
l = open(d + "/lib.rs").read()
i = l.index("entries! {\n")
body = "".join("    %s::%s,\n" % (m, f) for m in mods for f in re.findall(r"^pub fn (\w+)\(\)", open("%s/%s.rs" % (d, m)).read(), re.M))
l = re.sub(r"(pub mod h_\w+;\n)+", "".join("pub mod %s;\n" % m for m in mods), l)
i = l.index("entries! {\n")
open(d + "/lib.rs", "w").write(l[:i] + "entries! {\n" + body + "}\n")
