"""prints the table of the planted bugs (DESIGN.md)"""
import glob, json, os
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    print('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/')))
