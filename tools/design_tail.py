"""Prints section 5's table of planted bugs from seeded/*/meta.json."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | caught by | what it needs |')
print('|---|---|---|')
also = {'glob-dir': 'C12, C17', 'proto-first': 'C29, C18', 'list-misspelt': 'C13, C17', 'doc-quote': 'C22, C24'}
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    print('| %s | %s | %s |' % (n, also.get(n, m['property']), m['needs']))
