import sys, os
# claim.py ID 'technique' 'note': adds a line to mkmanifest and rewrites the manifest
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkmanifest.py')
s = open(p).read()
s = s.replace("}\nPENDING", "  %r: (%r, %r),\n}\nPENDING" % tuple(sys.argv[1:4]))
open(p, 'w').write(s)
