import py
py.check('P11', 'p11_invocation.py', ['iwyu_tool'], [
    dict(entry='h_arguments', params={'A': 1, 'P': 1}, thorough={'A': 2, 'P': 2}),
    dict(entry='h_command', params={'A': 2, 'L': 2}, thorough={'A': 2, 'L': 3}),
    dict(entry='h_neither'), dict(entry='h_msvc', params={'P': 1, 'S': 5}, thorough={'P': 2, 'S': 8}), dict(entry='h_main'),
], must_cover=['cl', 'plain', 'wrapper', 'command', 'refused', 'msvc', 'main'],
    bounds='program names: 6 directory/prefix forms x up to 1-2 symbolic characters x 8 endings; up to 2 arguments of up to 2-3 symbolic characters, three quoting styles; databases of 1-3 entries',
    outside='Windows case folding; longer command lines', stubs=['json.load, open and execute replaced by recorders in the whole-run harness'])
