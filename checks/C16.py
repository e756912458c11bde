import cpp
cpp.check('C16', ['c16_lexer.cpp'], ['iwyu_lexer_utils.cc', 'iwyu_port.cc', 'iwyu_verrs.cc'], [
    dict(entry='h_line', params={'N': 8}, thorough={'N': 10}), dict(entry='h_after', params={'N': 7}, thorough={'N': 9}),
    dict(entry='h_name', params={'N': 6}, thorough={'N': 8}), dict(entry='h_has', params={'N': 6}, thorough={'N': 8}),
    dict(entry='h_token', params={'N': 6}, thorough={'N': 8}), dict(entry='h_next', params={'N': 6}, thorough={'N': 8}),
], must_cover=['terminated', 'to-the-end', 'absent', 'found', 'empty', 'angle', 'quote', 'has', 'has-not', 'token', 'last', 'next'], extra=['-fno-access-control'],
    bounds='every text of up to 6-8 (thorough 8-10) characters over the significant characters (all bytes for tokens), every location in it, needles of up to 2 characters, macros of up to 6 (thorough 8) tokens of 4 kinds',
    outside='longer texts; texts with embedded NUL characters', stubs=['clang::SourceManager::getCharacterData answered from the text in a buffer of exactly its size'])
