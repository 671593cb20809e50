#!/usr/bin/env python3
"""C24 only: a build of mc-names that fails in what the check itself generated from the naming rule (its uses of
the naming macros, its list of exported functions) is the verdict "this name does not exist", not a missing answer.
Prints the reason and exits 0 if the failure is of that kind alone; exits 1 otherwise."""
import re, sys
log = open(sys.argv[1], "rb").read().decode("utf-8", "replace")
errors, missing = [], sorted(set(re.findall(r"undefined (?:reference to `|symbol: )([A-Za-z0-9_]+)", log)))
for block in re.split(r"\n(?=error|warning)", log):
    if not block.startswith("error"):
        continue
    first = block.splitlines()[0]
    if re.match(r"error: (could not compile|aborting due to|linking with)", first):
        continue
    at = re.search(r"-->\s*(\S+?):(\d+):(\d+)", block)
    if not at or not at.group(1).endswith("/out/names.rs"):
        sys.exit(1)
    line = open(at.group(1)).read().splitlines()[int(at.group(2)) - 1]
    errors.append("%s\n    in the generated use: %s" % (first, line[:400]))
if missing and not errors:
    print("the library lacks promised functions: " + ", ".join(missing))
elif errors and not missing:
    print("uses of the naming macros that must compile do not (%d):\n  " % len(errors) + "\n  ".join(errors[:5]))
else:
    sys.exit(1)
