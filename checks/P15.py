import py
py.check('P15', 'p15_args.py', ['iwyu_tool'], [
    dict(entry='h_bootstrap', params={'N': 2}, thorough={'N': 3}, every=5),
], must_cover=['second dashes', 'extra'],
    bounds='every combination of the own options, 0-2 sources and up to 2-3 tool arguments of up to 3 symbolic characters',
    outside='abbreviated own options (argparse itself)', stubs=['main replaced by a recorder', 'argparse runs unmodelled on the concrete own arguments'])
