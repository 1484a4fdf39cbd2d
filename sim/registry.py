"""Which scenarios decide which property"""

PROPS = {
    'C01': {'scenarios': [('backend', 1)], 'hang': True, 'quick': 70},
    'C02': {'scenarios': [('backend', 1)], 'quick': 70},
    'C03': {'scenarios': [('backend', 1)], 'quick': 70},
    'C04': {'scenarios': [('backend', 1)], 'quick': 70},
    'C05': {'scenarios': [('backend', 1)], 'hang': True, 'quick': 70},
    'C06': {'scenarios': [('backend', 1)], 'quick': 70},
    'C07': {'scenarios': [('backend', 1)], 'quick': 70},
    'C08': {'scenarios': [('server', 1)], 'quick': 80},
    'C09': {'scenarios': [('server', 1)], 'quick': 80},
    'C10': {'scenarios': [('server', 2), ('eventer', 1)], 'quick': 90},
    'C11': {'scenarios': [('server', 2), ('eventer', 1), ('cluster', 1)],
            'quick': 100},
    'C12': {'scenarios': [('server', 2), ('eventer', 1)], 'quick': 90},
    'C13': {'scenarios': [('server', 2), ('eventer', 1)], 'quick': 90},
    'C14': {'scenarios': [('server', 2), ('eventer', 1)], 'quick': 90},
    'C15': {'scenarios': [('server', 2), ('eventer', 1), ('cluster', 1)],
            'quick': 100},
    'C16': {'scenarios': [('eventer', 1)], 'quick': 70},
    'C17': {'scenarios': [('cluster', 1)], 'quick': 120},
    'C18': {'scenarios': [('cluster', 1)], 'quick': 120},
    'C19': {'scenarios': [('cluster', 1)], 'quick': 120},
    'C20': {'scenarios': [('cluster', 1)], 'quick': 120},
    'C21': {'scenarios': [('cluster', 1)], 'quick': 120},
    'C22': {'scenarios': [('cluster', 1)], 'quick': 120},
    'C23': {'scenarios': [('cluster', 1)], 'quick': 120},
    'C24': {'scenarios': [('server', 1)], 'quick': 80},
    'C25': {'scenarios': [('server', 1)], 'quick': 80},
    'C26': {'scenarios': [('server', 2), ('cluster', 1)], 'quick': 100},
    'C27': {'scenarios': [('adminer', 1)], 'quick': 50},
    'C28': {'scenarios': [('memory', 1)], 'quick': 50},
    'C29': {'scenarios': [('tools', 1)], 'quick': 50},
    'C32': {'scenarios': [('manager', 1)], 'quick': 50},
    'C33': {'scenarios': [('soak', 1)], 'quick': 70},
}

NOT_APPLICABLE = {
    'C30': 'pure functions of one value: no concurrency, time, I/O or '
           'multi-party behaviour; the simulation only exercises the encoder '
           'incidentally',
    'C31': 'pure functions of one value: no concurrency, time, I/O or '
           'multi-party behaviour; the simulation only exercises matching '
           'incidentally',
}
