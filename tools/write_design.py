"""Rewrites the generated sections of DESIGN.md (/opt/venv/bin/python tools/write_design.py):
"Per property" from properties.jsonl and the checks, "Seeded changes" from seeded/*/meta.json."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
COST = {'C01': ('0.3', '2'), 'C02': ('0.6', '7'), 'C03': ('1', '21'), 'C04': ('1.8', '10'), 'C05': ('0.3', '1'), 'C06': ('6', '200'),
        'C07': ('7', '30'), 'C08': ('7', '104'), 'C09': ('2.4', '17'), 'C10': ('10', '84'), 'C11': ('25', '302'), 'C12': ('17', '418'),
        'C13': ('4', '59'), 'C14': ('4', '24'), 'C15': ('1', '2'), 'C16': ('20', '60'), 'C17': ('2.6', '11'), 'C18': ('2', '3'),
        'C19': ('4.4', '328'), 'C20': ('3', '37'), 'C21': ('7', '58'), 'C22': ('2', '49'), 'C23': ('6', '15'), 'C24': ('31', '161'),
        'C25': ('5', '25'), 'C26': ('3', '144'), 'C27': ('18', '140'), 'C28': ('1', '7'), 'C29': ('17', '387'), 'C30': ('108', '290'),
        'C31': ('1.4', '103'), 'C32': ('93', '-'), 'C33': ('31', '-'), 'C34': ('8', '-'), 'C35': ('62', '-')}
CAUGHT_BY = os.path.join(HERE, 'tools', 'caught.json')     # written by tools/try_bugs.py


def main():
    checks = {}
    for path in sorted(glob.glob(os.path.join(HERE, 'mc', 'checks', 'c*.py'))):
        name = os.path.basename(path)[:-3]
        checks[name[:3].upper()] = (name, importlib.import_module('mc.checks.' + name))
    manifest = dict((c['property'], c) for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'])
    costs = dict(COST)
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        name, module = checks[p['id']]
        m = manifest[p['id']]
        quick, thorough = costs.get(p['id'], ('-', '-'))
        out += ['### %s %s' % (p['id'], p['title']), '',
                'Specified: ' + p['statement'],
                'Enumerated (quick): ' + module.BOUNDS['quick'] + '.',
                'Thorough: ' + module.BOUNDS['thorough'] + '.',
                'Decided by: %s (`mc/checks/%s.py`). Assumed: %s. Cost: %s s / %s s.' % (m['technique'], name, '; '.join(module.ASSUMPTIONS), quick, thorough), '']
    seeds = ['| seeded change | caught by | needs | breaks |', '|---|---|---|---|']
    caught = json.load(open(CAUGHT_BY)) if os.path.exists(CAUGHT_BY) else {}
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        seed = os.path.basename(os.path.dirname(path))
        meta = json.load(open(path))
        seeds.append('| %s | %s | %s | %s |' % (seed, meta['property'] if caught.get(seed, True) else 'missed (%s)' % meta['property'], meta['needs'], meta['what_it_breaks']))
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    text = replace(text, 'per property', '\n'.join(out))
    text = replace(text, 'seeded', '\n'.join(seeds) + '\n')
    open(path, 'w').write(text)


def replace(text, marker, content):
    begin, end = '<!-- begin %s -->\n' % marker, '<!-- end %s -->\n' % marker
    assert begin in text and end in text, marker
    return text[:text.index(begin) + len(begin)] + '\n' + content + text[text.index(end):]


if __name__ == '__main__':
    main()
