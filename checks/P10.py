import py
py.check('P10', 'p10_winsplit.py', ['iwyu_tool'], [
    dict(entry='h_split', params={'N': 5}, thorough={'N': 7}),
    dict(entry='h_roundtrip', params={'N': 3}, thorough={'N': 4}),
], must_cover=['two', 'trailing backslash', 'roundtrip'],
    bounds='every command line of up to 5 (thorough 7) characters over {a,b,blank,tab,quote,backslash}; every 1-2 arguments of up to 3 characters quoted by the standard rule',
    outside='longer lines; the doubled-quote-inside-quotes extension of newer runtimes', stubs=[])
