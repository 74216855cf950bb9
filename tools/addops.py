"""Register harness functions: tools/addops.py MODULE op..."""
import sys
p='/verif/harness/src/main.rs'; s=open(p).read()
m,ops=sys.argv[1],sys.argv[2:]
if "\nmod %s;"%m not in s: s=s.replace("mod typed;","mod typed;\nmod %s;"%m,1)
for o in ops:
    if '"%s" =>'%o not in s: s=s.replace('        "mime" => mime::mime(i),','        "mime" => mime::mime(i),\n        "%s" => %s::%s(i),'%(o,m,o),1)
open(p,'w').write(s)
