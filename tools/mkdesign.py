"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the two markers)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- catches -->\n', '<!-- /catches -->\n'


def main():
    rows = ['| planted bug | caught by | needs, to manifest |', '|---|---|---|']
    for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(p))
        rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'],
                                          m['needs'].replace('|', '/').replace('\n', ' ')))
    path = os.path.join(HERE, 'DESIGN.md')
    t = open(path).read()
    i, j = t.index(A) + len(A), t.index(B)
    open(path, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])


if __name__ == '__main__':
    main()
