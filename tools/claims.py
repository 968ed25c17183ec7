CLAIMED = {
    "P24": ("proof", "All series, of any length; batches and turns of a bounded search."),
    "P10": ("proof", "All formats, both byte orders, any number of values anywhere in any file. IEEE singles are identified with their bytes (NaN payloads excepted).") ,
    "P12": ("proof", "Any number of traces of any lengths at any offsets in a file of any length; the catalogs are arbitrary mappings."),
    'P05': ('proof', 'All integers assigned to every field of the shipped formats, and user-defined ranges with symbolic bounds.'),
    'P06': ('proof', 'All field values of the shipped formats in both byte orders, byte by byte; user-defined layouts from a list of shapes '
                     '(the search samples more).'),
    'P07': ('proof', 'All layouts of up to three fields with unbounded offsets, start and length; longer ones are searched (bounded).'),
    'P22': ('proof', 'All field values; the pickle byte stream itself is exercised by a bounded search (the pickle module is external).'),
    'P13': ('proof', 'Any characters in lines of any lengths (0, 1, 3, 7, 40 or 41 lines; the search tries other counts), at any position '
                     'of any file, in both encodings; the cp037 table is checked for all 256 bytes.'),
    'P21': ('proof', 'Any bytes in files of any length; int/int quotients are compared as exact rationals, which is right below 2**52.'),
    'P20': ('proof', 'Any Unicode texts of any length in all fields at once and in four subsets of them; numbers are formatted in the search only. The columns are a table recorded in units/cards.py.'),
    'P14': ('proof', 'Reading and writing: any number of pages, lines and characters, any file. Formatting free text: any contents, over a list of line counts and lengths (bounded).'),
    'P15': ('proof', 'Any number of traces of any lengths in all formats and both byte orders, any headers and pages, any earlier content of the file. '
                     'That the written file reads back follows from the layout with P06, P10, P11 and P12; the two together are exercised by a bounded search.'),
}
NOT = {}
