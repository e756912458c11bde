import cpp
cpp.check('C05', ['c05_response.cpp'], ['iwyu_verrs.cc'], [
    dict(entry='h_text', params={'N': 5}, thorough={'N': 6}),
    dict(entry='h_bytes', params={'N': 2}, thorough={'N': 3}),
    dict(entry='h_nested', params={'N': 4, 'M': 3}, thorough={'N': 5, 'M': 4}),
    dict(entry='h_argv'),
    dict(entry='h_driver', params={'W': 3}, thorough={'W': 4}),
], must_cover=['quote-and-escape', 'ends-in-backslash', 'nested', 'self-reference', 'unreadable', 'middle', 'preprocess', 'resource', 'dashdash', 'savetemps'], extra=['-fno-access-control'],
    bounds='one file of up to 5 (thorough: 6) characters over blank, newline, both quotes, backslash and a letter; every byte value for 2-3 characters inside a word; two files naming each other with up to 4+3 (thorough: 5+4) characters; '
           'command lines of up to 3 symbolic arguments; up to 3-4 words on the way to the driver (--, -resource-dir, -save-temps, preprocess-only spellings, symbolic 2-character words)',
    outside='longer files; what the compiler driver does with the words; words that are empty after unquoting are dropped by design',
    stubs=['MemoryBuffer::getFile reads an in-memory table whose buffers end exactly at the terminating null', 'the compiler driver is replaced at BuildCompilation by a recorder (natively too); symbolic runs also stub its constructor, the diagnostics engine and the executable path'])
