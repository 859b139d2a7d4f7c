"""unreplay.py FILE: the grammar and input of a replay file to /tmp/w/g.cg3 and /tmp/w/i.txt; prints the options."""
import json, re, sys
d = json.load(open(sys.argv[1]))['detail']
parts = re.split(r'(?m)^--- ?', d)
for p in parts:
    head, _, rest = p.partition('\n')
    if head == 'grammar':
        open('/tmp/w/g.cg3', 'w').write(rest)
    elif head == 'input':
        open('/tmp/w/i.txt', 'w').write(rest)
    elif head.startswith('options'):
        print(head)
