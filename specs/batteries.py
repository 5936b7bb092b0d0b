"""replay batteries per property"""
BATTERIES = {
    'E01': ['engine'], 'E02': ['engine'], 'E03': ['engine'], 'E04': ['engine'],
    'F01': ['frontend'], 'F02': ['frontend'], 'F03': ['frontend'],
    'T01': ['tuples'], 'T02': ['tuples'], 'T03': ['tuples'], 'T04': ['tuples'],
    'C01': ['crypto'], 'U01': ['util'], 'L01': ['aescircuit'], 'M01': ['channel'],
    'I01': ['buffered'],
    'S01': ['scheduler'], 'S02': ['scheduler'],
}
