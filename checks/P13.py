import py
py.check('P13', 'p13_execute.py', ['iwyu_tool'], [
    dict(entry='h_execute', params={'N': 3, 'K': 5}, thorough={'N': 4, 'K': 7}, every=3),
    dict(entry='h_load', params={'K': 1}, thorough={'K': 3}, every=3),
    dict(entry='h_load', params={'K': 0, 'NS': [4, 5], 'J': [2]}, thorough={'NS': [5, 6], 'J': [2, 3]}, every=3),
    dict(entry='h_worst'), dict(entry='h_process'), dict(entry='h_start'),
], must_cover=['out of order', 'parallel', 'n0 jobs1', 'n3 jobs2', 'n3 jobs3', 'negative', 'positive', 'process', 'start'],
    bounds='0-3 (thorough 4) jobs (up to 5, thorough 6, with a load limit), 1-3 parallel slots, every answer of the first 3-7 completion polls, symbolic exit codes -2..3 (chains over -255..255), symbolic load averages 0..5',
    outside='more jobs; real processes', stubs=['process start/poll/wait, sleep and load average are stand-ins answering arbitrarily; a process finishes after finitely many polls'])
