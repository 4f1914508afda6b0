"""addprop.py FILE: insert the dict() source in FILE at the end of PROPS."""
import sys
p = '/verif/tools/props_table.py'
s = open(p).read()
i = s.index(']\n\nNA')
s = s[:i].rstrip() + '\n' + open(sys.argv[1]).read().rstrip() + '\n' + s[i:]
open(p, 'w').write(s)
