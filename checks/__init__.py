"""property id -> (module, function, title, level, minimum number of obligations)"""
REGISTRY = {
    'C01': ('matrix', 'c01', 'matrix accesses stay inside their storage', 'proof', 40),
    'C02': ('matrix', 'c02', 'matrix copies are independent and storage is owned once', 'proof', 10),
    'C03': ('matrix', 'c03', 'element access, construction and copying', 'proof', 10),
    'C04': ('matrix', 'c04', 'changing dimensions keeps the overlap and fills with zero', 'proof', 10),
    'C05': ('matrix', 'c05', 'row and column permutations', 'proof', 10),
    'C06': ('matrix', 'c06', 'transpose, concatenation, diagonal, product, extraction', 'proof', 10),
    'C07': ('matrix', 'c07', 'row and column matching', 'proof', 10),
    'C08': ('qc', 'c08', 'transfer integral formula', 'proof', 10),
    'C09': ('qc', 'c09', 'orbital selection', 'proof', 10),
    'C10': ('qc', 'c10', 'transfer complex consistency and unscrambling data flow', 'proof', 8),
    'C11': ('io', 'c11', 'option value limits', 'proof', 20),
    'C12': ('io', 'c12', 'file rules', 'proof', 20),
    'C13': ('io', 'c13', 'option names', 'proof', 20),
    'C14': ('io', 'c14', 'command line values', 'proof', 100),
    'C15': ('io', 'c15', 'parameters of the calculation', 'proof', 20),
    'C16': ('run', 'c16', 'data flow of the whole program', 'proof', 15),
    'C17': ('text', 'c17', 'text helpers and settings record', 'proof', 20),
    'C18': ('files', 'c18', 'coefficient files', 'other', 100),
    'C19': ('files', 'c19', 'log files', 'other', 100),
    'C20': ('blocks', 'c20', 'reordering of atom blocks', 'other', 40),
    'C21': ('qc', 'c21', 'repeated calculation', 'proof', 20),
    'C22': ('parser', 'c22', 'parser set-up', 'proof', 60),
}
