#!/usr/bin/env python3
"""regenerates the module list of harness/src/lib.rs from the files present"""
import glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/src/"
m = sorted(os.path.basename(p)[:-3] for p in glob.glob(R + "c[0-9][0-9].rs"))
s = open(R + "lib.rs").read()
s = re.sub(r"// BEGIN MODS.*?// END MODS\n", "// BEGIN MODS\n" + "".join(f'#[cfg(feature = "{x}")]\npub mod {x};\n' for x in m) + "// END MODS\n", s, flags=re.S)
s = re.sub(r"    // BEGIN TAB.*?    // END TAB\n", "    // BEGIN TAB\n" + "".join(f'    #[cfg(feature = "{x}")] v.extend({x}::TABLE);\n' for x in m) + "    // END TAB\n", s, flags=re.S)
open(R + "lib.rs", "w").write(s)
