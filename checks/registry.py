REGISTRY = {
    'P01': ('pool', 'order'),
    'P02': ('pool', 'conserve'),
    'B01': ('containers', 'bulk_seq'),
    'B02': ('containers', 'bulk_life'),
    'Q01': ('containers', 'pqueue'),
    'S01': ('containers', 'bitset'),
    'S02': ('containers', 'span'),
    'D01': ('containers', 'dictionary'),
    'T01': ('sort', 'sort'),
    'T02': ('sort', 'bounds'),
    'Z01': ('zorder', 'encode'),
    'Z02': ('zorder', 'query'),
    'K01': ('clock', 'ticks'),
    'K02': ('clock', 'ostime'),
    'L01': ('codec', 'lziii'),
    'E01': ('codec', 'base64'),
    'H01': ('codec', 'crc'),
    'H02': ('codec', 'fnv'),
    'R01': ('rand', 'generators'),
    'R02': ('rand', 'bounded'),
    'X01': ('text', 'ints'),
    'X02': ('text', 'composite'),
    'G01': ('logs', 'names'),
    'G02': ('logs', 'reports'),
    'I01': ('reflect', 'visits'),
    'I02': ('reflect', 'names'),
    'I03': ('reflect', 'enums'),
    'V01': ('geo', 'inside'),
    'V02': ('geo', 'ranges'),
    'V03': ('geo', 'polygon'),
    'V04': ('geo', 'vectors'),
    'N01': ('geo', 'roots'),
    'A01': ('atomics', 'sequential'),
    'A02': ('atomics', 'concurrent'),
    'M01': ('mutexes', 'plain'),
    'M02': ('mutexes', 'shared'),
    'C01': ('mesh', 'c01'),
    'C02': ('mesh', 'c02'),
    'C03': ('mesh', 'c03'),
    'C04': ('mesh', 'c04'),
    'C05': ('mesh', 'c05'),
    'N02': ('turn', 'turns'),
    'N03': ('turn', 'lines'),
    'O01': ('osfile', 'files'),
    'X03': ('text', 'floats'),
    'N04': ('turn', 'normals'),
    'U01': ('types', 'types'),
    'G03': ('logs', 'disabled'),
}
NOT_APPLICABLE = {}
MC = 'TLA+ specification checked exhaustively with TLC at small constants; the real code replays every model transition plus seeded random histories and TLC validates the recorded traces against the specification'
TECH = {
    'default': (MC, 'Design exhaustive within the small constants; the code is decided on every recorded session (all model transitions and seeded random histories). Trusts TLC, clang/ASan and the driver.'),
}
