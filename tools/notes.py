"""Per property: technique and assurance, as written to MANIFEST.json"""
T = 'TLA+ trace validation with TLC (%s)'
A = ('Every recorded execution of the real code is checked by TLC to be a behaviour of the TLA+ specification; '
     'assurance is for the executions recorded (%s). Trusted: TLC, the Python recorder and its encoding of values.')
NOTES = {
    'C03': (T % 'MC_Blocks, Blocks', A % 'exhaustive sequences of up to 3 words of a 17-word alphabet, plus random blocks'),
    'C04': (T % 'MC_Blocks, Blocks', A % 'every pair of commands of the tables, plus random blocks of many commands'),
    'C05': (T % 'Dialect', A % 'every code number that can be written, several spellings each, and every code with every letter'),
    'C06': (T % 'MC_Blocks, Blocks, Machine', A % 'blocks in permuted orders on equal machines; sorted and split lists'),
    'C07': (T % 'Machine', A % 'random programs from library, empty and random default modes'),
    'C08': (T % 'Machine', A % 'modes reached by random programs, re-created three ways'),
    'C09': (T % 'Machine', A % 'random programs switching distance modes, planes, systems'),
    'C10': (T % 'Machine', A % 'random programs with random offsets, conversions, direct position changes'),
    'C11': (T % 'Machine', A % 'random programs, moves, offsets and copies'),
    'C12': (T % 'Machine', A % 'random programs of mostly modal lines, with unfit and duplicated parameters'),
    'C13': (T % 'Machine', A % 'blocks with random unusable parameters, cleaned or ignored'),
    'C14': (T % 'Machine', A % 'interleaved programs on copies, in-place changes of everything handed out'),
    'C16': (T % 'Machine', A % 'random canned-cycle programs in all planes, distance and return modes'),
}
NOTES.update({
    'C01': (T % 'MC_Text, Text', A % 'every text over a small alphabet up to a length, grammar-made lines and their mutations'),
    'C02': (T % 'MC_Text, Text', A % 'every text over a small alphabet up to a length, grammar-made word lists and their mutations'),
    'C22': (T % 'MC_Text, Text, Dialect', A % 'every line of up to 3 characters of ten, grammar-made lines, blocks and commands over all magnitudes of numbers, read back'),
    'C26': (T % 'Words', A % 'pairs and triples of words over all letters and spellings, histories of assignments'),
    'C27': (T % 'Params', A % 'every command class with random histories of additions, reads and assignments'),
    'C15': ('TLA+ model checking with TLC (MC_Positions), its behaviours replayed into Position; trace validation (Positions)',
            A % 'all behaviours of the bounded model, random histories of arithmetic, units and copies'),
    'C17': (T % 'Arc', A % 'random arcs of all planes, directions, forms, methods, precisions'),
    'C18': (T % 'Arc', A % 'random arcs, full circles, many turns, impossible and ambiguous arcs'),
    'C19': ('TLA+ model checking (MC_Drill) and trace validation with TLC (Drill)', A % 'all cycles of a small grid, random cycles of all codes, levels, pecks, modes'),
    'C20': ('TLA+ model checking (MC_Rel), its behaviours replayed; trace validation with TLC (Rel)', A % 'all short move lists, random lists over all axis sets'),
    'C21': ('TLA+ model checking (MC_Omit) and trace validation with TLC (Omit, Machine)', A % 'random lists of motions, cycles, modes'),
})
NOTES.update({
    'C23': (T % 'Norm, Machine, Arc, Drill', A % 'the script run on random programs of lines, arcs, cycles, modes, with random options; output executed by a second specified machine'),
    'C24': (T % 'Norm, Machine', A % 'the script run on random programs with random removal, formatting and finalising options'),
    'C25': (T % 'Crop, Machine', A % 'the script run on random programs and ranges, output executed from random starting points'),
})
NOTES.update({
    'C28': ('TLA+ model checking (MC_Frames), its cases replayed; trace validation with TLC (Frames)', A % 'every pair of directions of a small grid, random directions and coordinate systems'),
    'C29': (T % 'Text, Blocks', A % 'grammar-made lines and their mutations, every letter looked up'),
    'C31': ('TLA+ model checking (MC_User), its behaviours replayed; trace validation with TLC (User, Machine)', A % 'all short histories of definitions and builds, random ones with programs using the commands'),
    'C30': (T % 'Machine', A % 'every command assigned to every group, random programs with assignments between'),
})
NOTES['C32'] = (T % 'Dialects, Text', A % 'random word tables, texts in and out of them, defaults changed in between')
NOT_APPLICABLE = {}
