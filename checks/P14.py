import py
py.check('P14', 'p14_clang.py', ['iwyu_tool'], [
    dict(entry='h_report', params={'L': 1}, thorough={'L': 2}, every=5),
    dict(entry='h_report', params={'L': 2, 'LR': 1, 'S': [1], 'BLANKS': 1}, every=11),
    dict(entry='h_report', params={'L': 1, 'S': [1], 'MID': 1}, every=11, thorough={'S': [1, 2]}), dict(entry='h_iwyu'),
], must_cover=['correct', 'add why', 'remove', 'remove without line', 'last', 'plain'],
    bounds='reports of 1-2 file sections with up to 1-2 add and remove lines each, symbolic file names, include names, reasons and line numbers, compiler messages before, between and after them',
    outside='longer reports; texts that imitate section headings', stubs=[])
