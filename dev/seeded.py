"Rewrite the table of planted bugs at the end of DESIGN.md."
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs: which check catches which\n'
FIRST_MISSED = {
    'c06-exec-arg': 'no file name began with white space',
    'c16-app-tab': 'only spaces came after a name',
    'c20-odbc-order': 'no file was linted again, by its name, after an edit',
    'c02-read-error': 'read errors in the middle of a file were not tried',
    'c16-pipe': 'the grammar had no pipe inside a call that is alone',
    'c20-register-first': 'no dialplan used functions of its history',
    'c23-temp-beside-link': 'all directories were one file system',
    'c24-converter-all': 'no comment repeated the call',
    'c06-bom': 'no byte order mark or odd Unicode white space in lines',
    'c15-braces': 'no escaped brackets in expressions',
    'c03-include-depth': 'includes nested at most four deep',
    'c05-long-line': 'no long lines',
    'c14-wide': 'no names longer than 32 characters',
    'c26-home-slash': 'no python path entries that look like the user\'s '
                      'directory',
    'c27-dupe-label-name': 'no label with white space occurred twice',
    'c14-label-file': 'no file was included twice',
    'c21-unknown-set': 'no unknown names that differ in case only',
}
extra = os.path.join(VERIF, 'dev', 'missed.json')
if os.path.exists(extra):
    FIRST_MISSED.update(json.load(open(extra)))

path = os.path.join(VERIF, 'DESIGN.md')
text = open(path).read().split(HEAD)[0].rstrip('\n') + '\n\n' + HEAD + '''
Every one is caught by the quick check of its own property (seed 1). Those
marked with * were missed at first; what was added to the workload or monitor
is in the last column.

| planted bug | property | needs | first missed because |
|---|---|---|---|
'''
for meta in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(meta))
    data = json.load(open(meta))
    why = FIRST_MISSED.get(name, '')
    text += '| {}{} | {} | {} | {} |\n'.format(
        name, ' *' if why else '', data['property'],
        data['needs'].replace('|', '/'), why)
open(path, 'w').write(text)
